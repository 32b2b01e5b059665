From 24f7316b455937d85d083fa64bac9546eced529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 01/30] fix: do not wrap overdraft limits that exceed int64 in
 minor units

---
 model/model.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 1cb52a2..858c19c 100644
--- a/model/model.go
+++ b/model/model.go
@@ -186,9 +186,8 @@ func canProcessTransaction(transaction *Transaction, sourceBalance *Balance) err
 		// decimal arithmetic: int64(limit*precision) truncates binary-float
 		// products (0.29*100 -> 28), rejecting transactions exactly at the
 		// configured limit.
-		overdraftLimitPrecise := decimal.NewFromFloat(transaction.OverdraftLimit).
-			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).IntPart()
-		overdraftLimitBigInt := new(big.Int).SetInt64(overdraftLimitPrecise)
+		overdraftLimitBigInt := decimal.NewFromFloat(transaction.OverdraftLimit).
+			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).BigInt()
 
 		// Negative of overdraft limit (as balance will be negative)
 		negativeOverdraftLimit := new(big.Int).Neg(overdraftLimitBigInt)
-- 
2.43.0


From 9fd74d65b19610bbfd443f06fbdc5c877dcc3fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 02/30] fix: split legs add up, never exceed the whole and do
 not depend on map order

---
 model/transaction.go | 70 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 35f8a84..c8b1377 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -152,6 +152,9 @@ func processFixedDistributions(distributions []Distribution, state *distribution
 		if fixedAmountDec.IsZero() {
 			continue
 		}
+		if fixedAmountDec.Sign() < 0 {
+			return errors.New("fixed amount must not be negative")
+		}
 
 		if fixedAmountDec.Cmp(state.amountLeftDec) > 0 {
 			return errors.New("fixed amount exceeds remaining transaction amount")
@@ -200,6 +203,9 @@ func processPercentageDistributions(distributions []Distribution, state *distrib
 		if err != nil {
 			return errors.New("invalid percentage format")
 		}
+		if percentage < 0 {
+			return errors.New("percentage must not be negative")
+		}
 
 		percentageDec := decimal.NewFromFloat(percentage)
 		state.totalPercentage = state.totalPercentage.Add(percentageDec)
@@ -221,6 +227,10 @@ func validateDistributions(state *distributionState) error {
 	if state.totalPercentage.Cmp(hundredDec) > 0 || state.fixedTotalDec.Cmp(state.totalAmountDec) > 0 {
 		return errors.New("total distributions exceed 100% or total amount")
 	}
+	percentTotalDec := state.totalAmountDec.Mul(state.totalPercentage).Div(hundredDec)
+	if state.fixedTotalDec.Add(percentTotalDec).Cmp(state.totalAmountDec) > 0 {
+		return errors.New("total distributions exceed 100% or total amount")
+	}
 	return nil
 }
 
@@ -249,12 +259,14 @@ func adjustPercentageAmounts(state *distributionState) {
 	}
 }
 
-// findLargestDecimal finds the key with the largest decimal value
+// findLargestDecimal finds the key with the largest decimal value. Ties go to the
+// smallest key, so the outcome does not depend on map iteration order.
 func findLargestDecimal(amounts map[string]decimal.Decimal) (string, decimal.Decimal) {
 	var largestKey string
 	var largestAmount decimal.Decimal
 	for id, amount := range amounts {
-		if amount.Cmp(largestAmount) > 0 {
+		cmp := amount.Cmp(largestAmount)
+		if cmp > 0 || (cmp == 0 && largestKey != "" && id < largestKey) {
 			largestAmount = amount
 			largestKey = id
 		}
@@ -292,29 +304,41 @@ func processLeftDistribution(distributions []Distribution, state *distributionSt
 }
 
 // balanceDistributions ensures the sum of all distributions equals the total amount
-func balanceDistributions(state *distributionState) {
+func balanceDistributions(state *distributionState) error {
 	sumDec := decimal.Zero
 	for _, amount := range state.result {
 		sumDec = sumDec.Add(decimal.NewFromBigInt(amount, 0))
 	}
 
 	if sumDec.Cmp(state.totalAmountDec) == 0 {
-		return
+		return nil
 	}
 
+	// Ties go to the smallest key, so the outcome does not depend on map iteration order.
 	var largestKey string
 	largestAmount := big.NewInt(0)
 	for id, amount := range state.result {
-		if amount.Cmp(largestAmount) > 0 {
+		cmp := amount.Cmp(largestAmount)
+		if cmp > 0 || (cmp == 0 && largestKey != "" && id < largestKey) {
 			largestAmount = amount
 			largestKey = id
 		}
 	}
-
-	if largestKey != "" {
-		diff := state.totalAmountDec.Sub(sumDec)
-		state.result[largestKey] = new(big.Int).Add(state.result[largestKey], diff.BigInt())
+	if largestKey == "" && state.totalPercentage.Sign() > 0 {
+		// every share is less than one minor unit
+		for id := range state.percentAmounts {
+			if largestKey == "" || id < largestKey {
+				largestKey = id
+			}
+		}
+	}
+	if largestKey == "" {
+		return errors.New("distributions do not cover the transaction amount")
 	}
+
+	diff := state.totalAmountDec.Sub(sumDec)
+	state.result[largestKey] = new(big.Int).Add(state.result[largestKey], diff.BigInt())
+	return nil
 }
 
 // CalculateDistributionsPrecise calculates distributions using big.Int for precision
@@ -333,10 +357,6 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 
 	totalAmountDec := decimal.NewFromBigInt(totalPreciseAmount, 0)
 
-	if result := handleSmallAmount(totalAmountDec, totalPreciseAmount, distributions); result != nil {
-		return result, nil
-	}
-
 	state := &distributionState{
 		totalAmountDec: totalAmountDec,
 		amountLeftDec:  totalAmountDec,
@@ -361,6 +381,10 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 		return nil, err
 	}
 
+	if result := handleSmallAmount(totalAmountDec, totalPreciseAmount, distributions); result != nil {
+		return result, nil
+	}
+
 	adjustPercentageAmounts(state)
 	combineDistributions(state)
 
@@ -369,7 +393,10 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 		return nil, err
 	}
 
-	balanceDistributions(state)
+	if err := balanceDistributions(state); err != nil {
+		span.RecordError(err)
+		return nil, err
+	}
 
 	span.AddEvent("Precise distribution calculation completed")
 	return state.result, nil
@@ -427,7 +454,16 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 	var transactions []*Transaction
 	counter := 1
-	for direction, preciseAmount := range distributions {
+	split := make(map[string]bool, len(distributions))
+	for i := range ds {
+		// Walk the requested distributions in order: the legs, their references and
+		// the transaction IDs reported back must not depend on map iteration order.
+		direction := ds[i].Identifier
+		preciseAmount, exists := distributions[direction]
+		if !exists || split[direction] {
+			continue
+		}
+		split[direction] = true
 		newTransaction := *transaction                               // Create a copy of the original transaction
 		newTransaction.TransactionID = GenerateUUIDWithSuffix("txn") // Set the transaction ID
 		newTransaction.PreciseAmount = preciseAmount                 // Set the precise amount based on the distribution
@@ -442,10 +478,10 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 		if len(transaction.Sources) > 0 {
 			newTransaction.Source = direction // Set the source
-			transaction.Sources[counter-1].TransactionID = newTransaction.TransactionID
+			transaction.Sources[i].TransactionID = newTransaction.TransactionID
 		} else if len(transaction.Destinations) > 0 {
 			newTransaction.Destination = direction // Set the destination
-			transaction.Destinations[counter-1].TransactionID = newTransaction.TransactionID
+			transaction.Destinations[i].TransactionID = newTransaction.TransactionID
 		}
 
 		newTransaction.Reference = fmt.Sprintf("%s-%d", transaction.Reference, counter)
-- 
2.43.0


From 4e55a09cd94eed773455c7424af7cac2c1b472f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:13 +0000
Subject: [PATCH 03/30] fix: proportional lineage allocation hands out what
 rounding leaves over

---
 lineage_allocation.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/lineage_allocation.go b/lineage_allocation.go
index 0444713..76a2807 100644
--- a/lineage_allocation.go
+++ b/lineage_allocation.go
@@ -181,35 +181,36 @@ func (l *Blnk) proportionalAllocation(sources []LineageSource, amount *big.Int)
 	}
 
 	remaining := new(big.Int).Set(effectiveAmount)
+	shares := make([]*big.Int, len(sources))
 
 	for i, source := range sources {
-		var alloc *big.Int
-
-		if i == len(sources)-1 {
-			// Last source gets the remainder to handle rounding
-			alloc = new(big.Int).Set(remaining)
-		} else {
-			// Calculate proportional share: (effectiveAmount * source.Balance) / total
-			proportion := new(big.Int).Mul(effectiveAmount, source.Balance)
-			alloc = new(big.Int).Div(proportion, total)
-		}
+		// Calculate proportional share: (effectiveAmount * source.Balance) / total
+		proportion := new(big.Int).Mul(effectiveAmount, source.Balance)
+		shares[i] = new(big.Int).Div(proportion, total)
+		remaining.Sub(remaining, shares[i])
+	}
 
-		// Cap at source's available balance
-		if alloc.Cmp(source.Balance) > 0 {
-			alloc.Set(source.Balance)
+	// Rounding leaves less than one unit per source. Hand it out from the last
+	// source backwards, never giving a source more than its available balance.
+	for i := len(sources) - 1; i >= 0 && remaining.Sign() > 0; i-- {
+		extra := new(big.Int).Sub(sources[i].Balance, shares[i])
+		if extra.Cmp(remaining) > 0 {
+			extra.Set(remaining)
 		}
+		shares[i].Add(shares[i], extra)
+		remaining.Sub(remaining, extra)
+	}
 
+	for i, source := range sources {
 		// Skip zero allocations
-		if alloc.Cmp(big.NewInt(0)) <= 0 {
+		if shares[i].Cmp(big.NewInt(0)) <= 0 {
 			continue
 		}
 
 		allocations = append(allocations, Allocation{
 			BalanceID: source.BalanceID,
-			Amount:    alloc,
+			Amount:    shares[i],
 		})
-
-		remaining.Sub(remaining, alloc)
 	}
 
 	return allocations
-- 
2.43.0


From 25b69629b7131858568436260db5fa5bffef6b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 04/30] fix: keep request numbers exact when the key id is
 added to metadata

---
 api/middleware/auth.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api/middleware/auth.go b/api/middleware/auth.go
index 9625258..3fadfc0 100644
--- a/api/middleware/auth.go
+++ b/api/middleware/auth.go
@@ -143,9 +143,12 @@ func injectAPIKeyToMetadata(c *gin.Context, apiKeyID string) error {
 	}
 	_ = c.Request.Body.Close()
 
-	// Parse the request body as JSON
+	// Parse the request body as JSON. Numbers stay as written: amounts may exceed
+	// what a float64 represents exactly.
 	var bodyMap map[string]interface{}
-	if err := json.Unmarshal(bodyBytes, &bodyMap); err != nil {
+	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
+	decoder.UseNumber()
+	if err := decoder.Decode(&bodyMap); err != nil {
 		// If not valid JSON, restore the original body and continue
 		c.Request.Body = io.NopCloser(bytes.NewBuffer(bodyBytes))
 		return err
-- 
2.43.0


From 80dbdd69db1e2d72725a0e70ab6ce6d67f9972b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 05/30] fix: a transaction without splits is not a distribution
 that covers nothing

---
 model/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/transaction.go b/model/transaction.go
index c8b1377..15f5e15 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -351,7 +351,7 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 		attribute.Int("distribution.count", len(distributions)),
 	))
 
-	if totalPreciseAmount.Cmp(big.NewInt(0)) == 0 {
+	if len(distributions) == 0 || totalPreciseAmount.Cmp(big.NewInt(0)) == 0 {
 		return handleZeroAmount(distributions), nil
 	}
 
-- 
2.43.0


From 3833c237c5bdad635338e72491000fe333562135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 06/30] fix: settle the hold a queued inflight transaction was
 turned into

---
 transaction_inflight.go | 43 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/transaction_inflight.go b/transaction_inflight.go
index 8a75b97..9b16708 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -215,6 +215,16 @@ func (l *Blnk) CommitInflightTransactionWithRef(ctx context.Context, transaction
 		return nil, err
 	}
 
+	if transaction.Status == StatusQueued {
+		// The funds are held by the transaction the queue made of this one, if any.
+		holdID, err := l.queuedInflightHoldID(ctx, transaction)
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		return l.CommitInflightTransactionWithRef(ctx, holdID, amount, reference)
+	}
+
 	if err := l.validateAndUpdateAmount(ctx, transaction, amount); err != nil {
 		span.RecordError(err)
 		return nil, err
@@ -255,6 +265,15 @@ func (l *Blnk) CommitInflightTransactionWithQueue(ctx context.Context, transacti
 		return nil, err
 	}
 
+	if transaction.Status == StatusQueued {
+		holdID, err := l.queuedInflightHoldID(ctx, transaction)
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		return l.CommitInflightTransactionWithQueue(ctx, holdID, amount)
+	}
+
 	if err := l.validateAndUpdateAmount(ctx, transaction, amount); err != nil {
 		span.RecordError(err)
 		return nil, err
@@ -478,6 +497,16 @@ func (l *Blnk) VoidInflightTransactionWithRef(ctx context.Context, transactionID
 		return nil, err
 	}
 
+	if transaction.Status == StatusQueued {
+		// The funds are held by the transaction the queue made of this one, if any.
+		holdID, err := l.queuedInflightHoldID(ctx, transaction)
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		return l.VoidInflightTransactionWithRef(ctx, holdID, reference)
+	}
+
 	amountLeft, err := l.calculateRemainingAmount(ctx, transaction)
 	if err != nil {
 		span.RecordError(err)
@@ -564,6 +593,20 @@ func (l *Blnk) fetchAndValidateInflightTransaction(ctx context.Context, transact
 	return transaction, nil
 }
 
+// queuedInflightHoldID returns the ID of the transaction that holds the funds of a queued inflight
+// transaction. The queued record itself holds nothing: committing or voiding it directly would
+// settle some other hold on the same balances.
+func (l *Blnk) queuedInflightHoldID(ctx context.Context, queued *model.Transaction) (string, error) {
+	hold, err := l.datasource.GetTransactionByRef(ctx, fmt.Sprintf("%s_q", queued.Reference))
+	if err != nil {
+		return "", fmt.Errorf("queued inflight transaction %s has not been processed yet: %w", queued.TransactionID, err)
+	}
+	if hold.ParentTransaction != queued.TransactionID {
+		return "", fmt.Errorf("queued inflight transaction %s has not been processed yet", queued.TransactionID)
+	}
+	return hold.TransactionID, nil
+}
+
 // calculateRemainingAmount calculates the remaining amount for an inflight transaction by subtracting the committed amount from the precise amount.
 // It starts a tracing span, fetches the total committed amount, calculates the remaining amount, and records relevant events and errors.
 //
-- 
2.43.0


From aa6f7b571f23b460ae39679bb32f77be8bc0de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 07/30] fix: a repeated refund request does not reverse the
 refund

---
 transaction_batch_processing.go | 49 ++++++++++++++++++++++++++++++++-
 transaction_dryrun.go           | 21 ++------------
 transaction_refunds.go          |  7 ++++-
 3 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index 3456a5c..d152b9a 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -31,16 +31,63 @@ func (l *Blnk) GetRefundableTransactionsByParentID(ctx context.Context, parentTr
 	ctx, span := tracer.Start(ctx, "GetRefundableTransactionsByParentID")
 	defer span.End()
 
-	transactions, err := l.datasource.GetRefundableTransactionsByParentID(ctx, parentTransactionID, batchSize, offset)
+	transactions, err := l.refundableTransactions(ctx, parentTransactionID, batchSize)
 	if err != nil {
 		span.RecordError(err)
 		return nil, err
 	}
+	if offset > int64(len(transactions)) {
+		offset = int64(len(transactions))
+	}
+	transactions = transactions[offset:]
+	if batchSize > 0 && len(transactions) > batchSize {
+		transactions = transactions[:batchSize]
+	}
 	span.SetAttributes(attribute.String("parent_transaction_id", parentTransactionID))
 	span.AddEvent("Refundable transactions retrieved")
 	return transactions, nil
 }
 
+// refundableTransactions collects the transactions a refund of parentTransactionID
+// reverses: the rows the refundable query returns, each of them once, without
+// the reversals that earlier refunds of those rows have written. A reversal is
+// itself an APPLIED row under the id that is refunded, so it would otherwise be
+// reversed by the next refund, and it would move the rows a later page of a
+// refund in progress still has to reach. A reversal is only returned when it is
+// the transaction that was asked for.
+func (l *Blnk) refundableTransactions(ctx context.Context, parentTransactionID string, batchSize int) ([]*model.Transaction, error) {
+	if batchSize <= 0 {
+		batchSize = 100
+	}
+
+	var all []*model.Transaction
+	seen := make(map[string]bool)
+	for offset := int64(0); ; offset += int64(batchSize) {
+		batch, err := l.datasource.GetRefundableTransactionsByParentID(ctx, parentTransactionID, batchSize, offset)
+		if err != nil {
+			return nil, err
+		}
+		for _, txn := range batch {
+			if seen[txn.TransactionID] || isRefundUnder(txn, parentTransactionID) {
+				continue
+			}
+			seen[txn.TransactionID] = true
+			all = append(all, txn)
+		}
+		if len(batch) < batchSize {
+			return all, nil
+		}
+	}
+}
+
+// isRefundUnder reports whether txn is the reversal of another transaction
+// found under parentTransactionID.
+func isRefundUnder(txn *model.Transaction, parentTransactionID string) bool {
+	return txn.TransactionID != parentTransactionID &&
+		txn.ParentTransaction != "" &&
+		txn.Reference == refundReference(txn.ParentTransaction)
+}
+
 // ProcessTransactionInBatches processes transactions in batches or streams them based on the provided mode.
 // It starts a tracing span, initializes worker pools, fetches transactions, and processes them concurrently.
 //
diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 2b1c8e8..95abe2f 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -190,25 +190,10 @@ func (l *Blnk) PreviewRefund(ctx context.Context, transactionID string) (*model.
 // would reverse.
 //
 // The real refund reaches these through ProcessTransactionInBatches, which
-// pages the same query until it is exhausted, so the projection pages it too
-// rather than reading a single row and answering for that one.
+// pages the same collection until it is exhausted, so the projection takes all
+// of it rather than reading a single row and answering for that one.
 func (l *Blnk) refundableLegsForPreview(ctx context.Context, transactionID string) ([]*model.Transaction, error) {
-	batchSize := l.Config().Transaction.BatchSize
-	if batchSize <= 0 {
-		batchSize = 100
-	}
-
-	var all []*model.Transaction
-	for offset := int64(0); ; offset += int64(batchSize) {
-		batch, err := l.datasource.GetRefundableTransactionsByParentID(ctx, transactionID, batchSize, offset)
-		if err != nil {
-			return nil, err
-		}
-		all = append(all, batch...)
-		if len(batch) < batchSize {
-			return all, nil
-		}
-	}
+	return l.refundableTransactions(ctx, transactionID, l.Config().Transaction.BatchSize)
 }
 
 // normalizePreviewStatus assigns the status the transaction would carry by the
diff --git a/transaction_refunds.go b/transaction_refunds.go
index 5736f55..c92eb79 100644
--- a/transaction_refunds.go
+++ b/transaction_refunds.go
@@ -195,11 +195,16 @@ type RefundOptions struct {
 	MetaData map[string]interface{}
 }
 
+// refundReference is the reference the refund of a transaction is recorded under.
+func refundReference(transactionID string) string {
+	return fmt.Sprintf("%s_refund", transactionID)
+}
+
 // prepareRefundTransaction creates and configures a new transaction object for the refund.
 func prepareRefundTransaction(originalTxn *model.Transaction, opts RefundOptions) *model.Transaction {
 	newTransaction := *originalTxn // Create a copy
 	newTransaction.TransactionID = model.GenerateUUIDWithSuffix("txn")
-	newTransaction.Reference = fmt.Sprintf("%s_refund", originalTxn.TransactionID)
+	newTransaction.Reference = refundReference(originalTxn.TransactionID)
 	newTransaction.ParentTransaction = originalTxn.TransactionID
 	newTransaction.Source = originalTxn.Destination // Swap source and destination
 	newTransaction.Destination = originalTxn.Source
-- 
2.43.0


From 55e92eb8c7803a52493b83cfb8f0d6282e294181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 08/30] fix: a failed atomic bulk request undoes the legs of
 its split transactions

---
 transaction_bulk.go      | 36 ++++++++++++++++++++++++++++++++----
 transaction_queue.go     |  2 +-
 transaction_rejection.go |  2 +-
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/transaction_bulk.go b/transaction_bulk.go
index 58614e6..89d6c60 100644
--- a/transaction_bulk.go
+++ b/transaction_bulk.go
@@ -68,6 +68,31 @@ func (l *Blnk) rollbackBatchTransactions(ctx context.Context, batchID string, is
 	return action, rollbackErr
 }
 
+// rollbackBulkRequest rolls back what a failed bulk request has recorded. The legs
+// of a split transaction are children of that transaction and not of the batch,
+// so they are rolled back under its ID.
+func (l *Blnk) rollbackBulkRequest(ctx context.Context, transactions []*model.Transaction, batchID string, isInflight bool) (string, error) {
+	action, err := l.rollbackBatchTransactions(ctx, batchID, isInflight)
+	errs := []error{err}
+
+	for i, txn := range transactions {
+		if txn.ParentTransaction != batchID {
+			break // not reached
+		}
+		if len(txn.Sources) == 0 && len(txn.Destinations) == 0 {
+			continue
+		}
+		failed := i == len(transactions)-1 || transactions[i+1].ParentTransaction != batchID
+		if failed && txn.Atomic {
+			continue // an atomic split that fails has already undone its own legs
+		}
+		_, err := l.rollbackBatchTransactions(ctx, txn.TransactionID, isInflight)
+		errs = append(errs, err)
+	}
+
+	return action, errors.Join(errs...)
+}
+
 // voidInflightBatchTransactions voids all inflight transactions in a batch
 func (l *Blnk) voidInflightBatchTransactions(ctx context.Context, batchID string) (string, error) {
 	_, err := l.ProcessTransactionInBatches(
@@ -138,13 +163,16 @@ func (l *Blnk) sendBulkTransactionWebhook(batchID, status, errorMsg string, tran
 
 // handleAsyncBulkTransactionFailure handles failures in asynchronous processing
 // and builds a detailed error message including rollback status
-func (l *Blnk) handleAsyncBulkTransactionFailure(ctx context.Context, err error, batchID string, isAtomic bool, isInflight bool) {
+//
+// transactions are those of the bulk request; there are none if the batch is a
+// single split transaction, whose legs are children of batchID.
+func (l *Blnk) handleAsyncBulkTransactionFailure(ctx context.Context, err error, transactions []*model.Transaction, batchID string, isAtomic bool, isInflight bool) {
 	logrus.WithError(err).WithField("batch_id", batchID).Error("async bulk transaction error")
 
 	var errorMessage string
 
 	if isAtomic {
-		action, rollbackErr := l.rollbackBatchTransactions(ctx, batchID, isInflight)
+		action, rollbackErr := l.rollbackBulkRequest(ctx, transactions, batchID, isInflight)
 
 		if rollbackErr != nil {
 			errorMessage = fmt.Sprintf("%s. Failed to roll back all transactions: %s", err.Error(), rollbackErr.Error())
@@ -208,7 +236,7 @@ func (l *Blnk) CreateBulkTransactions(ctx context.Context, req *model.BulkTransa
 
 			if err != nil {
 				// Handle failure (rollback if atomic, send webhook)
-				l.handleAsyncBulkTransactionFailure(bgCtx, err, batchID, req.Atomic, req.Inflight)
+				l.handleAsyncBulkTransactionFailure(bgCtx, err, asyncTxns, batchID, req.Atomic, req.Inflight)
 			} else {
 				// Send webhook notification for success
 				status := "inflight"
@@ -238,7 +266,7 @@ func (l *Blnk) CreateBulkTransactions(ctx context.Context, req *model.BulkTransa
 
 		var responseError string
 		if req.Atomic {
-			action, rollbackErr := l.rollbackBatchTransactions(ctx, batchID, req.Inflight)
+			action, rollbackErr := l.rollbackBulkRequest(ctx, req.Transactions, batchID, req.Inflight)
 			if rollbackErr != nil {
 				responseError = fmt.Sprintf("%s. Failed to roll back all transactions: %s", err.Error(), rollbackErr.Error())
 			} else {
diff --git a/transaction_queue.go b/transaction_queue.go
index e037dd2..27a93b2 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -239,7 +239,7 @@ func (l *Blnk) processTxns(ctx context.Context, originalTxn *model.Transaction,
 				recorded, err := l.RecordTransaction(ctx, txn)
 				if err != nil {
 					if txn.Atomic {
-						l.handleAsyncBulkTransactionFailure(ctx, err, originalTxnID, true, txn.Inflight)
+						l.handleAsyncBulkTransactionFailure(ctx, err, nil, originalTxnID, true, txn.Inflight)
 					}
 					return nil, fmt.Errorf("failed to record split transaction %d: %w", i, err)
 				}
diff --git a/transaction_rejection.go b/transaction_rejection.go
index 435ecf1..d4a0121 100644
--- a/transaction_rejection.go
+++ b/transaction_rejection.go
@@ -72,7 +72,7 @@ func (l *Blnk) RejectTransaction(ctx context.Context, transaction *model.Transac
 		if !ok {
 			return nil, fmt.Errorf("parent transaction ID not found in meta data")
 		}
-		l.handleAsyncBulkTransactionFailure(ctx, errors.New("transaction rejected"), parentTransactionID, transaction.Atomic, transaction.Inflight)
+		l.handleAsyncBulkTransactionFailure(ctx, errors.New("transaction rejected"), nil, parentTransactionID, transaction.Atomic, transaction.Inflight)
 	}
 	// For rejected transactions, no balances were updated, so pass nil
 	l.postTransactionActions(ctx, transaction, nil, nil)
-- 
2.43.0


From 1e1bae7f28699bcd0aeb8bf9d9b9a8400a078891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:57 +0000
Subject: [PATCH 09/30] fix: queued transactions keep their overdraft limit and
 date when taken together or recovered

---
 transaction_coalescing.go |  9 +++++++++
 transaction_queue.go      | 32 +++++++++++++++++++++++++-------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index bc2b02e..8acc094 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"fmt"
 	"sort"
+	"time"
 
 	blnkhooks "github.com/blnkfinance/blnk/internal/hooks"
 	"github.com/blnkfinance/blnk/internal/hotpairs"
@@ -605,4 +606,12 @@ func restoreTransactionFlagsFromMetadata(transaction *model.Transaction) {
 	if v, ok := transaction.MetaData["allow_overdraft"].(bool); ok {
 		transaction.AllowOverdraft = v
 	}
+	if v, ok := transaction.MetaData[overdraftLimitMetadataKey].(float64); ok {
+		transaction.OverdraftLimit = v
+	}
+	if v, ok := transaction.MetaData[effectiveDateMetadataKey].(string); ok && transaction.EffectiveDate == nil {
+		if date, err := time.Parse(time.RFC3339Nano, v); err == nil {
+			transaction.EffectiveDate = &date
+		}
+	}
 }
diff --git a/transaction_queue.go b/transaction_queue.go
index 27a93b2..772f008 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -339,6 +339,8 @@ func setTransactionStatus(transaction *model.Transaction) {
 // Parameters:
 // - transaction *model.Transaction: The transaction for which to set metadata.
 func setTransactionMetadata(transaction *model.Transaction) {
+	// A date of its own, not the default of an earlier pass over the same transaction.
+	ownDate := transaction.EffectiveDate != nil && (transaction.TransactionID == "" || !transaction.EffectiveDate.Equal(transaction.CreatedAt))
 	transaction.CreatedAt = time.Now()
 	if transaction.EffectiveDate == nil {
 		transaction.EffectiveDate = &transaction.CreatedAt
@@ -354,16 +356,32 @@ func setTransactionMetadata(transaction *model.Transaction) {
 		transaction.MetaData = make(map[string]interface{})
 	}
 
-	// Set inflight flag in metadata if the transaction is inflight
+	// Keep the options a queued transaction is restored with (coalescing, recovery).
 	//maybe move to their respective columns in the db later
-	if transaction.Inflight {
-		transaction.MetaData["inflight"] = true
+	setMetadataFlag(transaction.MetaData, "inflight", transaction.Inflight)
+	setMetadataFlag(transaction.MetaData, "atomic", transaction.Atomic)
+	setMetadataFlag(transaction.MetaData, "allow_overdraft", transaction.AllowOverdraft)
+	delete(transaction.MetaData, overdraftLimitMetadataKey)
+	if transaction.OverdraftLimit != 0 {
+		transaction.MetaData[overdraftLimitMetadataKey] = transaction.OverdraftLimit
 	}
-	if transaction.Atomic {
-		transaction.MetaData["atomic"] = true
+	delete(transaction.MetaData, effectiveDateMetadataKey)
+	if ownDate {
+		transaction.MetaData[effectiveDateMetadataKey] = transaction.EffectiveDate.UTC().Format(time.RFC3339Nano)
 	}
-	if transaction.AllowOverdraft {
-		transaction.MetaData["allow_overdraft"] = true
+}
+
+// Metadata keys of options that have no column of their own on a queued row.
+const (
+	overdraftLimitMetadataKey = "blnk_overdraft_limit"
+	effectiveDateMetadataKey  = "blnk_effective_date"
+)
+
+// setMetadataFlag sets a flag that is on, and clears one inherited from another
+// transaction (a refund carries the metadata of what it refunds) that is off.
+func setMetadataFlag(metadata map[string]interface{}, key string, on bool) {
+	if _, inherited := metadata[key].(bool); on || inherited {
+		metadata[key] = on
 	}
 }
 
-- 
2.43.0


From e41a58b32317afdc81d73b5651607236bca41141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 10/30] fix: a queued transaction does not compete with its own
 queued record for funds

With queued checks on, the source balance's available funds were reduced by
the queued debits waiting on it, the record of the very transaction being
processed included, so a queued transaction needed twice its amount.
---
 transaction_coalescing.go |  1 +
 transaction_execution.go  | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index 8acc094..b4c7853 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -256,6 +256,7 @@ func (l *Blnk) prepareQueuedBatchTransaction(ctx context.Context, span trace.Spa
 		return queuedBatchPostCommitWork{}, fmt.Errorf("batch transaction validation failed: %w", err)
 	}
 
+	releaseOwnQueuedDebit(txn, sourceBalance)
 	finalizedTxn := l.updateTransactionDetails(ctx, txn, sourceBalance, destinationBalance)
 	if err := l.processBalances(ctx, finalizedTxn, sourceBalance, destinationBalance); err != nil {
 		return queuedBatchPostCommitWork{}, err
diff --git a/transaction_execution.go b/transaction_execution.go
index d36f7a3..7a395be 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -673,6 +673,7 @@ func (l *Blnk) validateAndPrepareTransaction(ctx context.Context, transaction *m
 		span.RecordError(err)
 		return nil, nil, nil, l.logAndRecordError(span, "failed to get source and destination balances", err)
 	}
+	releaseOwnQueuedDebit(transaction, sourceBalance)
 
 	// Create a copy of the transaction and update it (immutable)
 	newTransaction := *transaction // Copy the original transaction
@@ -687,6 +688,17 @@ func (l *Blnk) validateAndPrepareTransaction(ctx context.Context, transaction *m
 	return &newTransaction, sourceBalance, destinationBalance, nil
 }
 
+// releaseOwnQueuedDebit takes a transaction that comes from the queue out of the queued debits of its
+// source. Its queued record is counted there until it is decided, but it does not compete with itself
+// for funds.
+func releaseOwnQueuedDebit(transaction *model.Transaction, sourceBalance *model.Balance) {
+	if sourceBalance.QueuedDebitBalance == nil || transaction.Status != StatusQueued || transaction.SkipQueue ||
+		transaction.ParentTransaction == "" || !strings.HasSuffix(transaction.Reference, "_q") {
+		return
+	}
+	sourceBalance.QueuedDebitBalance = new(big.Int).Sub(sourceBalance.QueuedDebitBalance, model.ApplyPrecision(transaction))
+}
+
 // processBalances processes the source and destination balances by applying the transaction in-memory.
 // It starts a tracing span, applies the transaction to the balances, and records relevant events and errors.
 // Note: The actual database update of balances is done atomically with the transaction persistence
-- 
2.43.0


From 9b8ecc99c3d09884bd808c0c81104976d3ea1cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 11/30] fix: dry run of a commit or void follows a queued
 transaction to its hold

The real commit and void act on the hold made from the queued record.
---
 transaction_dryrun_inflight.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index 964685d..5fa8e71 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -183,6 +183,14 @@ func (l *Blnk) PreviewInflightAction(ctx context.Context, txID, action string, a
 // the real commit and void paths expand it.
 func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string) ([]*model.Transaction, error) {
 	transaction, err := l.fetchAndValidateInflightTransaction(ctx, txID)
+	if err == nil && transaction.Status == StatusQueued {
+		// The funds are held by the transaction the queue made of this one.
+		holdID, err := l.queuedInflightHoldID(ctx, transaction)
+		if err != nil {
+			return nil, err
+		}
+		return l.inflightLegsForPreview(ctx, holdID)
+	}
 	if err == nil {
 		return []*model.Transaction{transaction}, nil
 	}
-- 
2.43.0


From ac16e0fe96e71c62161582b18742c3b63ef188e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 12/30] fix: dry run keeps one projection per balance, however
 it is named

A balance named by its id in one leg and by its indicator in another was
projected as two, each missing the other's movement.
---
 transaction_dryrun.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 95abe2f..1816df6 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -521,9 +521,15 @@ func (s *previewBalanceSet) resolve(ctx context.Context, identifier, currency, r
 	if err != nil {
 		return nil, err
 	}
+	// The same balance can be named by its id and by its indicator.
+	if existing, ok := s.byID[resolved.balance.BalanceID]; ok {
+		s.byID[identifier] = existing
+		return existing, nil
+	}
 	resolved.before = resolved.balance.Clone()
 
 	s.byID[identifier] = resolved
+	s.byID[resolved.balance.BalanceID] = resolved
 	s.order = append(s.order, identifier)
 	return resolved, nil
 }
-- 
2.43.0


From 9932e0086040479375a2da038eac33c5b6bd1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:52 +0000
Subject: [PATCH 13/30] fix: dry run checks the references split legs are
 recorded under

A split is recorded under its legs' references, not its own, so the preview
let through splits whose legs are refused and refused ones that go through.
---
 transaction_dryrun.go      | 48 +++++++++++++++++++++++++++++++++--
 transaction_dryrun_bulk.go | 52 ++++++++++++++++++++++++++++----------
 2 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 1816df6..6bb5d22 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -326,10 +326,28 @@ func (l *Blnk) previewSplitTransaction(ctx context.Context, transaction *model.T
 	// different, uncoordinated times.
 	shared := newPreviewBalanceSet(l)
 
-	for _, leg := range legs {
+	for i, leg := range legs {
 		normalizePreviewStatus(leg)
 		leg.PreciseAmount = model.ApplyPrecision(leg)
 
+		// Each leg is recorded under its own reference, and a used one is
+		// refused before its balances are touched.
+		taken, err := l.referenceTaken(ctx, splitLegReference(transaction, i))
+		if err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+		if taken {
+			preview.WouldApply = false
+			if preview.Rejection == nil {
+				preview.Rejection = previewRejection(duplicateReferenceErr(splitLegReference(transaction, i)))
+			}
+			if cumulative {
+				break
+			}
+			continue
+		}
+
 		set := shared
 		if !cumulative {
 			set = newPreviewBalanceSet(l)
@@ -388,6 +406,32 @@ func (l *Blnk) previewSplitTransaction(ctx context.Context, transaction *model.T
 	return preview, nil
 }
 
+// splitLegReference is the reference leg i of a split is recorded under: the one
+// it is given by the split when it is recorded at once, and the one given to its
+// queued record otherwise.
+func splitLegReference(transaction *model.Transaction, i int) string {
+	if transaction.Reference == "" {
+		return ""
+	}
+	if transaction.SkipQueue {
+		return fmt.Sprintf("%s-%d", transaction.Reference, i+1)
+	}
+	return fmt.Sprintf("%s_%d", transaction.Reference, i+1)
+}
+
+// referenceTaken reports whether a transaction with this reference exists.
+func (l *Blnk) referenceTaken(ctx context.Context, reference string) (bool, error) {
+	if reference == "" {
+		return false, nil
+	}
+	return l.datasource.TransactionExistsByRef(ctx, reference)
+}
+
+// duplicateReferenceErr is the error a real post fails with when its reference is taken.
+func duplicateReferenceErr(reference string) error {
+	return fmt.Errorf("transaction validation failed: reference %s has already been used", reference)
+}
+
 // previewBalance is a balance resolved for projection, along with whether it
 // had to be invented because it does not exist yet.
 type previewBalance struct {
@@ -613,7 +657,7 @@ func (l *Blnk) notePreviewCaveats(ctx context.Context, preview *model.Transactio
 			// is a rejection like any other — not a caveat balance projection
 			// can still say would_apply: true around.
 			preview.WouldApply = false
-			preview.Rejection = previewRejection(fmt.Errorf("transaction validation failed: reference %s has already been used", transaction.Reference))
+			preview.Rejection = previewRejection(duplicateReferenceErr(transaction.Reference))
 		}
 	}
 }
diff --git a/transaction_dryrun_bulk.go b/transaction_dryrun_bulk.go
index a02ec9e..79cfe5c 100644
--- a/transaction_dryrun_bulk.go
+++ b/transaction_dryrun_bulk.go
@@ -18,7 +18,6 @@ package blnk
 
 import (
 	"context"
-	"fmt"
 
 	"github.com/blnkfinance/blnk/model"
 	"go.opentelemetry.io/otel/attribute"
@@ -128,21 +127,26 @@ func (l *Blnk) PreviewBulkTransactions(ctx context.Context, request *model.BulkT
 // Returns a non-nil preview only when item.Reference collides; nil, nil
 // means the caller should preview the item normally.
 func (l *Blnk) bulkItemDuplicateReference(ctx context.Context, item *model.Transaction, seenRefs map[string]bool) (*model.TransactionPreview, error) {
-	if item.Reference == "" {
-		return nil, nil
-	}
-
-	duplicate := seenRefs[item.Reference]
-	if !duplicate {
-		exists, err := l.datasource.TransactionExistsByRef(ctx, item.Reference)
-		if err != nil {
-			return nil, err
+	used := ""
+	for _, reference := range recordedReferences(item) {
+		taken := seenRefs[reference]
+		if !taken {
+			exists, err := l.referenceTaken(ctx, reference)
+			if err != nil {
+				return nil, err
+			}
+			taken = exists
+		}
+		if taken {
+			used = reference
+			break
 		}
-		duplicate = exists
 	}
 
-	if !duplicate {
-		seenRefs[item.Reference] = true
+	if used == "" {
+		for _, reference := range recordedReferences(item) {
+			seenRefs[reference] = true
+		}
 		return nil, nil
 	}
 
@@ -153,11 +157,31 @@ func (l *Blnk) bulkItemDuplicateReference(ctx context.Context, item *model.Trans
 	preview.WouldApply = false
 	preview.PreciseAmount = preciseString(item.PreciseAmount)
 	preview.Amount = item.Amount
-	preview.Rejection = previewRejection(fmt.Errorf("transaction validation failed: reference %s has already been used", item.Reference))
+	preview.Rejection = previewRejection(duplicateReferenceErr(used))
 	preview.Finalize()
 	return preview, nil
 }
 
+// recordedReferences lists the references an item is recorded under: its own, or
+// those of its legs when it is split.
+func recordedReferences(item *model.Transaction) []string {
+	if item.Reference == "" {
+		return nil
+	}
+	legs := len(item.Sources)
+	if legs == 0 {
+		legs = len(item.Destinations)
+	}
+	if legs == 0 {
+		return []string{item.Reference}
+	}
+	references := make([]string, legs)
+	for i := range references {
+		references[i] = splitLegReference(item, i)
+	}
+	return references
+}
+
 // previewBulkItem projects one item of a batch.
 //
 // In cumulative mode the item is applied to the shared working balances so the
-- 
2.43.0


From c4d07f726745656e0e6ad8ca28a8eb00f814f9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 14/30] fix: an API key read while it is being revoked does not
 stay in the cache

A lookup that read the key before the revocation and cached it after the
revocation had dropped the cached key kept it valid for five more minutes.
---
 database/api_key.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/database/api_key.go b/database/api_key.go
index fa05ae8..4f96923 100644
--- a/database/api_key.go
+++ b/database/api_key.go
@@ -176,10 +176,8 @@ func (s *Datasource) GetAPIKey(ctx context.Context, key string) (*model.APIKey,
 		if verifyAPIKey(candidate.Key, key) {
 			// Cache the verified key
 			if s.Cache != nil {
-				err = s.Cache.Set(ctx, cacheKey, &candidate, 5*time.Minute)
-				if err != nil {
-					logrus.WithError(err).Warn("failed to cache API key")
-				}
+				_ = rows.Close()
+				s.cacheAPIKey(ctx, cacheKey, &candidate)
 			}
 			return &candidate, nil
 		}
@@ -188,6 +186,28 @@ func (s *Datasource) GetAPIKey(ctx context.Context, key string) (*model.APIKey,
 	return nil, ErrAPIKeyNotFound
 }
 
+// cacheAPIKey caches a verified key. A revocation drops the cached key, but one that
+// completed after the key was read may have done so before the key is stored here, so
+// the key is dropped again unless it still stands as it was read.
+func (s *Datasource) cacheAPIKey(ctx context.Context, cacheKey string, apiKey *model.APIKey) {
+	if err := s.Cache.Set(ctx, cacheKey, apiKey, 5*time.Minute); err != nil {
+		logrus.WithError(err).Warn("failed to cache API key")
+		return
+	}
+	if apiKey.IsRevoked {
+		return
+	}
+
+	revoked := true
+	err := s.Conn.QueryRowContext(ctx, `SELECT is_revoked FROM blnk.api_keys WHERE api_key_id = $1`, apiKey.APIKeyID).Scan(&revoked)
+	if err != nil || revoked {
+		// The request's own end must not keep the key in the cache.
+		if err := s.Cache.Delete(context.WithoutCancel(ctx), cacheKey); err != nil {
+			logrus.WithError(err).Warn("failed to invalidate API key cache")
+		}
+	}
+}
+
 // RevokeAPIKey marks an API key as revoked in the database, preventing its future use.
 // The function updates the is_revoked flag to true and sets the revoked_at timestamp.
 // It also invalidates the cache entry for the revoked key to ensure immediate effect.
-- 
2.43.0


From 53337a42cde225cc52b7ea55a7d15cc8dfe66f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 15/30] fix: metadata updates set the given keys in the
 database, leaving others as they are

---
 database/metadata.go | 6 +++---
 metadata.go          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/metadata.go b/database/metadata.go
index 92965e4..d50393c 100644
--- a/database/metadata.go
+++ b/database/metadata.go
@@ -22,7 +22,7 @@ func (d *Datasource) UpdateLedgerMetadata(id string, metadata map[string]interfa
 
 	_, err = d.Conn.ExecContext(context.Background(), `
 		UPDATE blnk.ledgers 
-		SET meta_data = $1
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE ledger_id = $2
 	`, metadataJSON, id)
 	return err
@@ -76,7 +76,7 @@ func (d *Datasource) UpdateBalanceMetadata(ctx context.Context, id string, metad
 
 	_, err = d.Conn.ExecContext(ctx, `
 		UPDATE blnk.balances 
-		SET meta_data = $1
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE balance_id = $2
 	`, metadataJSON, id)
 	return err
@@ -99,7 +99,7 @@ func (d *Datasource) UpdateIdentityMetadata(id string, metadata map[string]inter
 
 	_, err = d.Conn.ExecContext(context.Background(), `
 		UPDATE blnk.identity 
-		SET meta_data = $1
+		SET meta_data = (CASE WHEN jsonb_typeof(meta_data) = 'object' THEN meta_data ELSE '{}'::jsonb END) || $1::jsonb
 		WHERE identity_id = $2
 	`, metadataJSON, id)
 	return err
diff --git a/metadata.go b/metadata.go
index 7abf089..2438bb7 100644
--- a/metadata.go
+++ b/metadata.go
@@ -66,7 +66,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := ledger.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
@@ -125,7 +125,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := balance.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
@@ -152,7 +152,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		}
 		currentMetadata := identity.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
-		err = l.updateEntityMetadata(ctx, entityType, entityID, mergedMetadata)
+		err = l.updateEntityMetadata(ctx, entityType, entityID, newMetadata)
 		if err != nil {
 			return nil, fmt.Errorf("failed to update metadata: %w", err)
 		}
-- 
2.43.0


From 08f9c0efee1f29383a5aae99e7e5ff090746acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 16/30] fix: detokenize texts that contain the token separator

---
 internal/tokenization/tokenization.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/tokenization/tokenization.go b/internal/tokenization/tokenization.go
index 9ccc45c..f646691 100644
--- a/internal/tokenization/tokenization.go
+++ b/internal/tokenization/tokenization.go
@@ -244,14 +244,16 @@ func (s *TokenizationService) formatPreservingDetokenize(token string) (string,
 		return "", fmt.Errorf("not a format-preserving token")
 	}
 
-	// Split the token
-	parts := strings.SplitN(token, ":", 3)
-	if len(parts) < 3 {
+	// The standard token follows the last separator; the visible part may
+	// contain separators of its own.
+	visible := strings.TrimPrefix(token, "FPT:")
+	sep := strings.LastIndex(visible, ":")
+	if sep < 0 {
 		return "", fmt.Errorf("invalid format-preserving token format")
 	}
 
 	// Extract the standard token part
-	standardToken := parts[2]
+	standardToken := visible[sep+1:]
 
 	// Use standard detokenization to get the original value
 	return s.standardDetokenize(standardToken)
-- 
2.43.0


From 0568c222b39859f7010d7a144d4147e1a9a98539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 17/30] fix: reading an identity in the clear detokenizes
 fields recorded in the database

---
 identity.go | 63 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/identity.go b/identity.go
index 0949d86..946c048 100644
--- a/identity.go
+++ b/identity.go
@@ -274,6 +274,25 @@ func (l *Blnk) TokenizeIdentity(identityID string, fields []string) error {
 	return nil
 }
 
+// tokenizedFieldsOf returns the tokenized fields recorded in an identity's
+// metadata. The map is stored as map[string]bool in memory but unmarshals from
+// the database as map[string]interface{}, so both shapes must be handled.
+func tokenizedFieldsOf(identity *model.Identity) map[string]bool {
+	switch fields := identity.MetaData["tokenized_fields"].(type) {
+	case map[string]bool:
+		return fields
+	case map[string]interface{}:
+		tokenized := make(map[string]bool)
+		for fieldName, val := range fields {
+			if boolVal, ok := val.(bool); ok {
+				tokenized[fieldName] = boolVal
+			}
+		}
+		return tokenized
+	}
+	return nil
+}
+
 // DetokenizeIdentity detokenizes and returns all tokenized fields in an identity.
 //
 // Parameters:
@@ -291,22 +310,9 @@ func (l *Blnk) DetokenizeIdentity(identityID string) (map[string]string, error)
 
 	result := make(map[string]string)
 
-	// Check each tokenized field in metadata. The map is stored as
-	// map[string]bool in memory but unmarshals from the database as
-	// map[string]interface{}, so both shapes must be handled.
+	// Check each tokenized field in metadata
 	if identity.MetaData != nil {
-		tokenized := make(map[string]bool)
-		switch fields := identity.MetaData["tokenized_fields"].(type) {
-		case map[string]bool:
-			tokenized = fields
-		case map[string]interface{}:
-			for fieldName, val := range fields {
-				if boolVal, ok := val.(bool); ok {
-					tokenized[fieldName] = boolVal
-				}
-			}
-		}
-		for fieldName, isTokenized := range tokenized {
+		for fieldName, isTokenized := range tokenizedFieldsOf(identity) {
 			if isTokenized {
 				originalValue, err := l.DetokenizeIdentityField(identityID, fieldName)
 				if err != nil {
@@ -356,21 +362,18 @@ func (l *Blnk) GetDetokenizedIdentity(identityID string) (*model.Identity, error
 
 	// Detokenize all tokenized fields
 	if identity.MetaData != nil {
-		tokenizedFields, ok := identity.MetaData["tokenized_fields"].(map[string]bool)
-		if ok {
-			for field, isTokenized := range tokenizedFields {
-				if isTokenized {
-					originalValue, err := l.DetokenizeIdentityField(identityID, field)
-					if err != nil {
-						return nil, err
-					}
-
-					// Set the original value in the copy
-					val := reflect.ValueOf(&detokenizedIdentity).Elem()
-					fieldVal := val.FieldByName(field)
-					if fieldVal.IsValid() && fieldVal.CanSet() {
-						fieldVal.SetString(originalValue)
-					}
+		for field, isTokenized := range tokenizedFieldsOf(identity) {
+			if isTokenized {
+				originalValue, err := l.DetokenizeIdentityField(identityID, field)
+				if err != nil {
+					return nil, err
+				}
+
+				// Set the original value in the copy
+				val := reflect.ValueOf(&detokenizedIdentity).Elem()
+				fieldVal := val.FieldByName(convertToStructFieldName(field))
+				if fieldVal.IsValid() && fieldVal.CanSet() {
+					fieldVal.SetString(originalValue)
 				}
 			}
 		}
-- 
2.43.0


From 4b73d8a5a3eedf5f9cfcc98151d8a78d4fb59c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 18/30] fix: fields of an identity tokenized at once do not
 undo one another

---
 identity.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/identity.go b/identity.go
index 946c048..273fa22 100644
--- a/identity.go
+++ b/identity.go
@@ -24,6 +24,7 @@ import (
 	"strings"
 
 	"github.com/blnkfinance/blnk/internal/filter"
+	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/internal/notification"
 	"github.com/blnkfinance/blnk/internal/tokenization"
 	"github.com/blnkfinance/blnk/model"
@@ -164,6 +165,18 @@ func (l *Blnk) TokenizeIdentityField(identityID, fieldName string) error {
 		return fmt.Errorf("field %s is not tokenizable", fieldName)
 	}
 
+	// Tokenizing reads, changes and writes back the whole identity: one at a time,
+	// or the last to write puts back the fields the others tokenized.
+	if l.redis != nil {
+		ctx := context.Background()
+		locker := redlock.NewLocker(l.redis, fmt.Sprintf("identity-tokenize:%s", identityID), model.GenerateUUIDWithSuffix("loc"))
+		cfg := l.Config().Transaction
+		if err := locker.WaitLock(ctx, cfg.LockDuration, cfg.LockWaitTimeout); err != nil {
+			return fmt.Errorf("failed to acquire lock for tokenization: %w", err)
+		}
+		defer l.releaseSingleLock(ctx, locker)
+	}
+
 	// Get the identity
 	identity, err := l.GetIdentity(identityID)
 	if err != nil {
-- 
2.43.0


From cd2c8c861fa2e405a0322ae77904cf5ca7c32481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 19/30] fix: a monitor for an exact figure fires

Monitors are stored with the operator "=", the comparison knew only "==".
---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 858c19c..3ad1ecb 100644
--- a/model/model.go
+++ b/model/model.go
@@ -83,7 +83,7 @@ func compare(value *big.Int, condition string, compareTo *big.Int) bool {
 		return cmp <= 0
 	case "!=":
 		return cmp != 0
-	case "==":
+	case "=", "==":
 		return cmp == 0
 	}
 	return false
-- 
2.43.0


From 9a8f7c61fc288ac6ea091d6eea06b1e2fac45aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 20/30] fix: updating a monitor changes the threshold it fires
 at

The update left the threshold in minor units and the precision as they were, so the
old condition still counted; a monitor moved to another balance kept firing for the
first one while cached, and thresholds beyond int64 wrapped.
---
 balance.go          | 27 +++++++++++++++++++++++----
 database/balance.go | 14 ++++++++++++--
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/balance.go b/balance.go
index 7b904b2..126f22f 100644
--- a/balance.go
+++ b/balance.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"math/big"
 	"time"
 
 	"github.com/blnkfinance/blnk/config"
@@ -28,6 +29,7 @@ import (
 	"github.com/blnkfinance/blnk/internal/metrics"
 	"github.com/blnkfinance/blnk/internal/notification"
 	"github.com/blnkfinance/blnk/model"
+	"github.com/shopspring/decimal"
 	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/attribute"
@@ -347,6 +349,11 @@ func (l *Blnk) GetAllBalancesWithFilterAndOptions(ctx context.Context, filters *
 	return balances, count, nil
 }
 
+// monitorThreshold applies the precision of a monitor's condition to its value, exactly.
+func monitorThreshold(condition model.AlertCondition) *big.Int {
+	return decimal.NewFromFloat(condition.Value).Mul(decimal.NewFromFloat(condition.Precision)).BigInt()
+}
+
 // CreateMonitor creates a new balance monitor.
 // It starts a tracing span, applies precision to the monitor's condition value, and creates the monitor.
 // It records relevant events and errors.
@@ -362,9 +369,7 @@ func (l *Blnk) CreateMonitor(ctx context.Context, monitor model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "CreateMonitor")
 	defer span.End()
 
-	amount := int64(monitor.Condition.Value * monitor.Condition.Precision) // apply precision to value
-	amountBigInt := model.Int64ToBigInt(amount)
-	monitor.Condition.PreciseValue = amountBigInt
+	monitor.Condition.PreciseValue = monitorThreshold(monitor.Condition)
 	monitor, err := l.datasource.CreateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
@@ -458,12 +463,26 @@ func (l *Blnk) UpdateMonitor(ctx context.Context, monitor *model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "UpdateMonitor")
 	defer span.End()
 
-	err := l.datasource.UpdateMonitor(monitor)
+	existing, err := l.datasource.GetMonitorByID(monitor.MonitorID)
+	if err != nil {
+		span.RecordError(err)
+		return err
+	}
+
+	// The threshold follows the new value; the precision stays unless one is given
+	if monitor.Condition.Precision == 0 {
+		monitor.Condition.Precision = existing.Condition.Precision
+	}
+	monitor.Condition.PreciseValue = monitorThreshold(monitor.Condition)
+
+	err = l.datasource.UpdateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
 		return err
 	}
 
+	// The monitor may have moved from another balance
+	_ = l.cache.Delete(ctx, "monitors:"+existing.BalanceID)
 	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
 
 	span.AddEvent("Monitor updated", trace.WithAttributes(attribute.String("monitor.id", monitor.MonitorID)))
diff --git a/database/balance.go b/database/balance.go
index 56b0eed..2f30f04 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -1312,11 +1312,21 @@ func (d Datasource) GetBalanceMonitors(balanceID string) ([]model.BalanceMonitor
 // - error: If the update fails, an appropriate `APIError` is returned.
 func (d Datasource) UpdateMonitor(monitor *model.BalanceMonitor) error {
 	// Execute the SQL update statement, replacing the placeholder values with the monitor's data
-	result, err := d.Conn.ExecContext(context.Background(), `
+	query := `
 		UPDATE blnk.balance_monitors
 		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7
 		WHERE monitor_id = $1
-	`, monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL)
+	`
+	args := []interface{}{monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL}
+	if monitor.Condition.PreciseValue != nil {
+		query = `
+		UPDATE blnk.balance_monitors
+		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7, precision = $8, precise_value = $9
+		WHERE monitor_id = $1
+	`
+		args = append(args, monitor.Condition.Precision, monitor.Condition.PreciseValue.String())
+	}
+	result, err := d.Conn.ExecContext(context.Background(), query, args...)
 	// If an error occurred during execution, return an internal server error
 	if err != nil {
 		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to update monitor", err)
-- 
2.43.0


From 8f92b51606d1d031499fc0342010c7e80ee8d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 21/30] fix: monitors read while one is changed do not stay in
 the cache

---
 balance.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/balance.go b/balance.go
index 126f22f..0785265 100644
--- a/balance.go
+++ b/balance.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"fmt"
 	"math/big"
+	"reflect"
 	"time"
 
 	"github.com/blnkfinance/blnk/config"
@@ -137,6 +138,13 @@ func (l *Blnk) getBalanceMonitorsCached(ctx context.Context, balanceID string) (
 	}
 
 	_ = l.cache.Set(ctx, cacheKey, monitors, 5*time.Minute)
+
+	// A change of the monitors drops them from the cache, but one made since they were
+	// read may have done so before they were stored: keep them only if they still stand.
+	current, err := l.datasource.GetBalanceMonitors(balanceID)
+	if err != nil || len(current) != len(monitors) || len(current) > 0 && !reflect.DeepEqual(current, monitors) {
+		_ = l.cache.Delete(context.WithoutCancel(ctx), cacheKey)
+	}
 	return monitors, nil
 }
 
-- 
2.43.0


From 146848a3c0119078803c2c1782379caa88297cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 22/30] fix: chain verification notices links removed from or
 added to the end

It accepted a chain shorter than the recorded length, and one that went on beyond it.
---
 chain_worker.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/chain_worker.go b/chain_worker.go
index 7c121cc..d06277e 100644
--- a/chain_worker.go
+++ b/chain_worker.go
@@ -175,6 +175,7 @@ func (l *Blnk) VerifyChain(ctx context.Context, progress func(seq int64)) (Chain
 	}
 
 	head := state.GenesisHash
+	recordedHead := head // at the recorded length
 	var lastSeq int64
 	expectedSeq := int64(1)
 	const page = 1000
@@ -203,15 +204,36 @@ func (l *Blnk) VerifyChain(ctx context.Context, progress func(seq int64)) (Chain
 			head = ct.ChainHash
 			lastSeq = ct.ChainSeq
 			expectedSeq++
+			if lastSeq == state.LastSeq {
+				recordedHead = head
+			}
 			if progress != nil {
 				progress(lastSeq)
 			}
 		}
 	}
 
+	// Every sealed transaction must still be there, up to the recorded length.
+	if lastSeq < state.LastSeq {
+		return ChainVerifyResult{BrokenSeq: lastSeq + 1,
+			Reason: fmt.Sprintf("chain ends at seq %d, chain_state records %d", lastSeq, state.LastSeq)}, nil
+	}
+
 	// The replayed head must match the recorded head at the recorded length.
-	if lastSeq == state.LastSeq && head != state.HeadHash {
-		return ChainVerifyResult{BrokenSeq: lastSeq, Reason: "replayed head does not match chain_state head_hash"}, nil
+	if recordedHead != state.HeadHash {
+		return ChainVerifyResult{BrokenSeq: state.LastSeq, Reason: "replayed head does not match chain_state head_hash"}, nil
+	}
+
+	// Links beyond the recorded length must have been sealed since it was read: sealing
+	// advances chain_state together with the links.
+	if lastSeq > state.LastSeq {
+		state, err = l.datasource.GetChainState(ctx)
+		if err != nil {
+			return ChainVerifyResult{}, err
+		}
+		if lastSeq > state.LastSeq || lastSeq == state.LastSeq && head != state.HeadHash {
+			return ChainVerifyResult{BrokenSeq: lastSeq, Reason: "chain goes on beyond what chain_state records"}, nil
+		}
 	}
 
 	return ChainVerifyResult{Verified: true, LastSeq: lastSeq, HeadHash: head}, nil
-- 
2.43.0


From 94c8b9daeea94df188cf738c78cfd3ecd8575ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 23/30] fix: secrets in addresses of any scheme and letter case
 are not exported

---
 internal/monitoringexporter/redact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/monitoringexporter/redact.go b/internal/monitoringexporter/redact.go
index b6fbbf0..f75fa2f 100644
--- a/internal/monitoringexporter/redact.go
+++ b/internal/monitoringexporter/redact.go
@@ -30,7 +30,7 @@ var sensitiveKeyParts = []string{
 }
 
 var (
-	absoluteURLPattern = regexp.MustCompile(`https?://[^\s"'<>]+`)
+	absoluteURLPattern = regexp.MustCompile(`(?i)[a-z][a-z0-9+.-]*://[^\s"'<>]+`)
 	queryValuePattern  = regexp.MustCompile(`([?&][^=\s&]+)=([^&\s]+)`)
 	bearerPattern      = regexp.MustCompile(`(?i)\bBearer\s+[A-Za-z0-9._~+/=-]+`)
 )
-- 
2.43.0


From 2dae856b95fd3d71aabbb206988fa35d03be8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 24/30] fix: the API key header is not exported

---
 internal/monitoringexporter/redact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/monitoringexporter/redact.go b/internal/monitoringexporter/redact.go
index f75fa2f..20535aa 100644
--- a/internal/monitoringexporter/redact.go
+++ b/internal/monitoringexporter/redact.go
@@ -27,6 +27,7 @@ var sensitiveKeyParts = []string{
 	"callback",
 	"metadata",
 	"webhook",
+	"x_blnk_key",
 }
 
 var (
-- 
2.43.0


From f2db31c403c269ff4aeeb1f6bee0cf969b9883b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 25/30] fix: secrets inside structures and encoded values are
 not exported

---
 internal/monitoringexporter/redact.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/monitoringexporter/redact.go b/internal/monitoringexporter/redact.go
index 20535aa..545cb50 100644
--- a/internal/monitoringexporter/redact.go
+++ b/internal/monitoringexporter/redact.go
@@ -1,6 +1,8 @@
 package monitoringexporter
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"net/url"
 	"reflect"
@@ -62,8 +64,14 @@ func RedactValue(value interface{}) interface{} {
 		return RedactString(v.Error())
 	case string:
 		return RedactString(v)
+	case json.Number:
+		return v
 	case fmt.Stringer:
 		return RedactString(v.String())
+	case json.Marshaler:
+		return redactEncodedValue(v)
+	case []byte:
+		return RedactString(string(v))
 	case map[string]interface{}:
 		out := make(map[string]interface{}, len(v))
 		for key, nested := range v {
@@ -162,7 +170,26 @@ func redactReflectValue(value interface{}) interface{} {
 			out[i] = RedactValue(rv.Index(i).Interface())
 		}
 		return out
+	case reflect.Struct, reflect.Ptr:
+		return redactEncodedValue(value)
+	case reflect.String:
+		return RedactString(rv.String())
 	default:
 		return value
 	}
 }
+
+// redactEncodedValue redacts a value in the form it is exported in, its JSON encoding.
+func redactEncodedValue(value interface{}) interface{} {
+	encoded, err := json.Marshal(value)
+	if err != nil {
+		return redacted
+	}
+	decoder := json.NewDecoder(bytes.NewReader(encoded))
+	decoder.UseNumber()
+	var decoded interface{}
+	if err := decoder.Decode(&decoded); err != nil {
+		return redacted
+	}
+	return RedactValue(decoded)
+}
-- 
2.43.0


From fb21c045272de6da57e2350687380c431d19f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 26/30] fix: legs of a split are listed in one order on every
 page

---
 transaction_queue.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transaction_queue.go b/transaction_queue.go
index 772f008..b48ea5b 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -209,6 +209,15 @@ func (l *Blnk) handleSplitTransactions(ctx context.Context, transaction *model.T
 	if err != nil {
 		return nil, fmt.Errorf("failed to split transaction: %w", err)
 	}
+
+	// Legs are listed page by page in the order of their creation, which has to be
+	// the same on every page.
+	for i, leg := range transactions {
+		leg.CreatedAt = leg.CreatedAt.Add(time.Duration(i) * time.Microsecond)
+		if leg.EffectiveDate == &transaction.CreatedAt {
+			leg.EffectiveDate = &leg.CreatedAt
+		}
+	}
 	return transactions, nil
 }
 
-- 
2.43.0


From 0f007bfd4dce6b12cd7eddc0039f64fe5c1328c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 27/30] fix: a failure to list a group of transactions is
 always reported

---
 transaction_batch_processing.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index d152b9a..27e7dc0 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -143,11 +143,17 @@ func (l *Blnk) ProcessTransactionInBatches(ctx context.Context, parentTransactio
 		go fetchTransactions(ctx, parentTransactionID, batchSize, gt, jobs, errChan)
 
 		// Wait for all processing to complete
+		<-done
+
 		select {
 		case err := <-errChan:
+			// The group was not listed to the end
 			span.RecordError(err)
+			if len(allErrors) > 0 {
+				return allTxns, fmt.Errorf("%w, error occurred during processing: %v", err, allErrors)
+			}
 			return allTxns, err
-		case <-done:
+		default:
 		}
 
 		if len(allErrors) > 0 {
-- 
2.43.0


From 339bc872fbba901ead1a014f22c89111f7167179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 28/30] fix: filters in a body compare numbers with all their
 digits

---
 internal/filter/types.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/filter/types.go b/internal/filter/types.go
index 0912667..0742df8 100644
--- a/internal/filter/types.go
+++ b/internal/filter/types.go
@@ -1,6 +1,10 @@
 package filter
 
-import "time"
+import (
+	"bytes"
+	"encoding/json"
+	"time"
+)
 
 // Operator represents supported filter operators.
 type Operator string
@@ -32,6 +36,17 @@ type QueryFilter struct {
 	Operator Operator      `json:"operator"`
 	Value    interface{}   `json:"value,omitempty"`
 	Values   []interface{} `json:"values,omitempty"`
+
+	raw []string // the values as written in a query string
+}
+
+// UnmarshalJSON keeps numbers as they are written: as floating point numbers
+// they would lose the digits that large amounts have.
+func (f *QueryFilter) UnmarshalJSON(data []byte) error {
+	type plain QueryFilter
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decoder.Decode((*plain)(f))
 }
 
 // LogicalOperator represents how multiple filters are combined.
-- 
2.43.0


From e524a90dd23e61da625c50923123476c6d8e915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 29/30] fix: transactions can be filtered by two indicators

---
 internal/filter/sql_builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/filter/sql_builder.go b/internal/filter/sql_builder.go
index 93517df..02f596d 100644
--- a/internal/filter/sql_builder.go
+++ b/internal/filter/sql_builder.go
@@ -62,6 +62,14 @@ func Build(filters *QueryFilterSet, table string, alias string, startArgPos int)
 
 		if f.Field == "indicator" && table == "transactions" {
 			cond, args, nextArgPos, ctes = buildIndicatorCondition(f, alias, argPos)
+			if n := len(result.CTEs); n > 0 {
+				// Every condition has a table expression of its own.
+				name := fmt.Sprintf("_indicator_matches_%d", n+1)
+				cond = strings.ReplaceAll(cond, "_indicator_matches", name)
+				for i := range ctes {
+					ctes[i] = strings.Replace(ctes[i], "_indicator_matches", name, 1)
+				}
+			}
 			if cond != "" {
 				result.Conditions = append(result.Conditions, cond)
 				result.Args = append(result.Args, args...)
-- 
2.43.0


From 32f24d75bbc481c5a24f189bc21514cf71e82908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 30/30] fix: filters in a query string compare what is written,
 and none is dropped

---
 internal/filter/parser.go      |  6 +++-
 internal/filter/sql_builder.go |  2 ++
 internal/filter/values.go      | 66 +++++++++++++++++++++++++++++++++-
 3 files changed, 72 insertions(+), 2 deletions(-)

diff --git a/internal/filter/parser.go b/internal/filter/parser.go
index c8b0a26..80022f5 100644
--- a/internal/filter/parser.go
+++ b/internal/filter/parser.go
@@ -114,6 +114,7 @@ func ParseFromQuery(queryParams url.Values, opts *ParseOptions) *ParseResult {
 				})
 				continue
 			}
+			f.raw = betweenValues
 			f.Values = []interface{}{
 				parseValue(betweenValues[0]),
 				parseValue(betweenValues[1]),
@@ -128,15 +129,18 @@ func ParseFromQuery(queryParams url.Values, opts *ParseOptions) *ParseResult {
 				})
 				continue
 			}
+			f.raw = make([]string, len(inValues))
 			f.Values = make([]interface{}, len(inValues))
 			for i, v := range inValues {
-				f.Values[i] = parseValue(strings.TrimSpace(v))
+				f.raw[i] = strings.TrimSpace(v)
+				f.Values[i] = parseValue(f.raw[i])
 			}
 
 		case OpIsNull, OpIsNotNull:
 			// No value needed for null checks
 
 		default:
+			f.raw = []string{value}
 			f.Value = parseValue(value)
 		}
 
diff --git a/internal/filter/sql_builder.go b/internal/filter/sql_builder.go
index 02f596d..2e73c85 100644
--- a/internal/filter/sql_builder.go
+++ b/internal/filter/sql_builder.go
@@ -37,6 +37,8 @@ func Build(filters *QueryFilterSet, table string, alias string, startArgPos int)
 		var nextArgPos int
 		var ctes []string
 
+		f = f.withRawValues()
+
 		if strings.Contains(f.Field, ".") && strings.HasPrefix(f.Field, "meta_data") {
 			cond, args, nextArgPos = buildJSONPathCondition(f, alias, argPos)
 			if cond != "" {
diff --git a/internal/filter/values.go b/internal/filter/values.go
index 8310600..a7f7862 100644
--- a/internal/filter/values.go
+++ b/internal/filter/values.go
@@ -1,7 +1,10 @@
 package filter
 
 import (
+	"encoding/json"
+	"math"
 	"strconv"
+	"strings"
 )
 
 func parseValue(value string) interface{} {
@@ -9,7 +12,7 @@ func parseValue(value string) interface{} {
 		return intVal
 	}
 
-	if floatVal, err := strconv.ParseFloat(value, 64); err == nil {
+	if floatVal, err := strconv.ParseFloat(value, 64); err == nil && !math.IsNaN(floatVal) && !math.IsInf(floatVal, 0) {
 		return floatVal
 	}
 
@@ -30,3 +33,64 @@ func parseValue(value string) interface{} {
 
 	return value
 }
+
+// withRawValues returns the filter with the values its column is compared with.
+// A query string says nothing about the type of a value, which is therefore
+// guessed when it is parsed: what is compared with text is taken as it was
+// written instead, and so are numbers that have more digits than their parsed form.
+func (f QueryFilter) withRawValues() QueryFilter {
+	if len(f.raw) == 0 {
+		return f
+	}
+	if comparesText(f) {
+		if len(f.Values) > 0 {
+			values := make([]interface{}, len(f.raw))
+			for i, raw := range f.raw {
+				values[i] = raw
+			}
+			f.Values = values
+		} else {
+			f.Value = f.raw[0]
+		}
+		return f
+	}
+
+	values := make([]interface{}, len(f.Values))
+	for i, value := range f.Values {
+		values[i] = exactNumber(value, f.raw[i])
+	}
+	if len(values) > 0 {
+		f.Values = values
+	} else {
+		f.Value = exactNumber(f.Value, f.raw[0])
+	}
+	return f
+}
+
+// exactNumber returns a number that was parsed as floating point as it was written.
+func exactNumber(value interface{}, raw string) interface{} {
+	if _, ok := value.(float64); ok && json.Valid([]byte(raw)) {
+		return json.Number(raw)
+	}
+	return value
+}
+
+// comparesText reports whether the filter compares text, not numbers or dates.
+func comparesText(f QueryFilter) bool {
+	if strings.HasPrefix(f.Field, "meta_data.") {
+		switch f.Operator {
+		case OpNotEqual, OpLike, OpILike, OpIn:
+			return true
+		}
+		return false
+	}
+	switch f.Field {
+	case "amount", "precision", "balance", "credit_balance", "debit_balance",
+		"inflight_balance", "inflight_credit_balance", "inflight_debit_balance",
+		"matched_transactions", "unmatched_transactions",
+		"created_at", "updated_at", "effective_date", "started_at", "completed_at",
+		"date", "dob", "meta_data":
+		return false
+	}
+	return true
+}
-- 
2.43.0

