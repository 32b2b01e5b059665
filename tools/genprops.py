#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; kept as code so the texts stay reviewable."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("P01","Every balance movement is double-entry and conserves value",
 "Applying, holding, committing or voiding any transaction takes exactly the transaction's precise amount from the source and gives exactly that amount to the destination, in the matching settled or inflight fields. For each of the two balances the settled balance always equals credits minus debits and the inflight balance equals inflight credits minus inflight debits, and no other field changes; amounts are never wrapped, rounded or truncated by size.",
 ["inputs","histories"],"all starting balances, all amounts (including beyond 2^63 and 2^53), normal / inflight / commit / void, any order of steps",
 "Tests check a few hand-picked amounts on fresh balances; the claim is over all amounts and all reachable balance states.",
 ["model/model.go","transaction_execution.go"],
 [("balance arithmetic","model/model.go addCredit/addDebit/computeBalance"),("commit and void arithmetic","model/model.go CommitInflight*/RollbackInflight*"),("dispatch on status","transaction_execution.go applyTransactionToBalances")],
 [("balance fields","settled and inflight credit, debit and net","model.Balance")],["stored balances after each operation"])
p("P02","No transaction overspends its source",
 "A transaction without overdraft is refused unless the source's available funds (settled balance, less what is held inflight out of it, less queued debits where those are counted) cover it, and a refused transaction leaves both balances untouched. With an overdraft limit set, the available funds may go below zero by at most the limit expressed in the transaction's precision, at any size; only overdraft allowed with no limit is unconditional. A transaction that is covered is never refused for lack of funds.",
 ["inputs","histories"],"all balances, held amounts, queued debits, amounts, overdraft limits and precisions",
 "Unit tests fix one or two amounts on each side of the boundary; the boundary over all operands and combinations of holds and limits is not reached.",
 ["model/model.go","transaction_execution.go"],
 [("funds check","model/model.go canProcessTransaction, UpdateBalances"),("error propagation","transaction_execution.go processBalances")],
 (),["error returned by recording a transaction","stored balances"])
p("P03","Stored balances equal the replay of recorded transactions",
 "At every point at which the database can be observed, each balance's settled and inflight amounts are exactly what results from replaying the transactions recorded against it (applied ones settled, inflight ones held until committed or voided, rejected and queued ones ignored). This holds for transactions recorded directly, committed in part or full, voided, refunded, rejected or taken from the queue.",
 ["histories","inputs"],"all short histories of record / hold / commit / void / refund / reject operations with arbitrary amounts",
 "Tests follow single scripted histories with fixed amounts and look at one balance afterwards.",
 ["transaction_execution.go","transaction_inflight.go","transaction_refunds.go","transaction_rejection.go","database/transaction.go","database/balance.go"],
 [("transaction and balance rows written together","database/transaction.go RecordTransactionWithBalancesAndOutbox"),("inflight settlement","transaction_inflight.go")],
 [("transactions table","one row per recorded step","sql migrations"),("balances table","running totals","sql migrations")],["blnk.transactions and blnk.balances rows"])
p("P04","Recording is atomic under faults and crashes",
 "If any database step fails, or the process stops at any point while a transaction (single, coalesced or inflight action) is being recorded, then either the transaction row, both balance updates and the follow-up lineage work item are all durable, or none of them is. A failure reported to the caller never leaves a partial effect behind.",
 ["crash_points","fault_sequences"],"a fault or crash at every database statement, begin and commit of the recording path",
 "Mock-driven tests inject one expected error at one statement; they never examine what is durable after each possible stop.",
 ["database/transaction.go","database/balance.go","database/transaction_coalescing.go","database/lineage.go","transaction_execution.go"],
 [("single SQL transaction with deferred rollback","database/transaction.go")],(),["durable rows after each statement"])
p("P05","A reference takes effect at most once",
 "Two recordings with the same reference, one after the other or overlapping, result in at most one recorded transaction and at most one movement of funds; the other is refused as a duplicate. An unused reference is never refused as a duplicate.",
 ["histories","schedules"],"every order and overlap of two recordings with equal or different references, on any entry (direct, queued, rejected)",
 "Tests submit a duplicate sequentially once; overlapping submissions and duplicates through the queue are not enumerated.",
 ["transaction_execution.go","database/transaction_queries.go","sql/"],
 [("existence check","transaction_execution.go validateTxn"),("unique index","sql migrations idx_transactions_reference_unique")],(),["transactions table","balances"])
p("P06","Concurrent updates to a balance are never lost",
 "When several writers update the same balance at once, each successful write was computed from the version it replaces: a write based on a stale version fails with a conflict and changes nothing, and the version increases by exactly one per successful write. A batch write of several balances succeeds for all of them or for none.",
 ["schedules","inputs"],"all interleavings of two or three read-modify-write writers at statement granularity, all versions",
 "Race tests run a few real schedules; the losing schedule is a matter of luck.",
 ["database/balance.go","transaction_execution.go","internal/lock/lock.go"],
 [("optimistic version check","database/balance.go updateBalance/updateBalanceSet")],
 [("version","row version","balances.version")],["balances rows","error of the loser"])
p("P07","An inflight hold is settled at most once and never beyond its amount",
 "Over any sequence or overlap of full or partial commits and voids of a held transaction, the committed amounts plus the voided remainder never exceed the held amount, and a void releases exactly what is left uncommitted. Once nothing remains or it was voided, every further commit or void is refused without effect, and only held transactions can be committed or voided.",
 ["histories","schedules","inputs"],"all sequences of up to three commit/void requests with arbitrary amounts, sequential and overlapping, with and without retries",
 "Tests script a few commit/void orders with round amounts.",
 ["transaction_inflight.go","database/transaction_queries.go","model/model.go"],
 [("remaining amount","transaction_inflight.go calculateRemainingAmount/validateRequestedAmount"),("per-transaction lock","transaction_inflight.go")],(),["children of the held transaction","balances"])
p("P08","A refund happens at most once and exactly reverses the original",
 "Refunding an applied transaction moves exactly the original amount back from its destination to its source, and does so at most once however often or concurrently it is requested; a held, rejected or queued transaction cannot be refunded. Refunding a group of transactions refunds each of them once.",
 ["histories","inputs","schedules"],"all amounts, statuses and repetitions of refund requests",
 "Tests refund one transaction once or twice sequentially.",
 ["transaction_refunds.go"],
 [("refund reference and lock","transaction_refunds.go RefundTransactionWithOptions")],(),["transactions and balances rows"])
p("P09","Split transactions distribute exactly the whole amount",
 "A transaction split over several distinct sources or destinations by fixed amounts, percentages or the remainder yields legs whose precise amounts add up to exactly the transaction's precise amount, none of them negative; where the legs asked for make up the whole (or one takes the remainder), each is what was asked to within one minor unit per percentage leg. A distribution that exceeds the whole or has a negative share is refused, and one that makes up the whole is not. The outcome, references and reported transaction of each leg do not depend on map iteration order.",
 ["inputs"],"all amounts, all mixes of up to four shares, all iteration orders",
 "Tests use a few distributions with totals that divide evenly.",
 ["model/transaction.go"],
 [("distribution","model/transaction.go CalculateDistributionsPrecise, SplitTransactionPrecise")],(),["legs of the split transaction"])
p("P10","Amount and precise amount convert exactly",
 "The precise amount used for balances is the stated decimal amount times the precision, rounded half away from zero, computed without binary floating-point error; a stated precise amount is used unchanged at any size and the displayed amount is derived from it. A precision of zero means one, negative amounts are refused, and the same input always gives the same result.",
 ["inputs"],"all decimal amounts up to 15 significant digits, all precise amounts, precisions 1 to 10^18",
 "Tests list some amounts; binary-fraction errors appear only at particular digits.",
 ["model/model.go"],
 [("conversion","model/model.go ApplyPrecision, convertDecimalToPrecise, convertPreciseToDecimal"),("validation","model/model.go validate")],(),["precise amount of recorded transactions"])
p("P11","A queued transaction takes effect exactly once",
 "However often a queued transaction is delivered, and wherever a delivery fails or stops, funds move at most once, and after a successful delivery exactly one final record (applied, inflight or rejected) exists for it. A transaction refused for lack of funds after its retries is recorded as rejected and moves nothing.",
 ["histories","fault_sequences","crash_points"],"two or three deliveries of a task with a fault or stop at any database statement of any of them",
 "Tests run the worker once per task; redelivery after each possible partial failure is not enumerated.",
 ["transaction_queue.go","transaction_execution.go","transaction_rejection.go","cmd/workers.go"],
 [("queue copy and reference","transaction_queue.go"),("duplicate detection","transaction_execution.go")],(),["transactions by parent or reference","balances"])
p("P12","Coalesced processing equals one-by-one processing",
 "Processing a batch of queued transactions together leaves the same balances and the same set of recorded transactions as processing those members one after the other, never lets a member through that would overspend, and never applies a member twice or drops it. When the batch cannot be applied as a whole, no member of it takes effect.",
 ["inputs","histories","fault_sequences"],"batches of up to three transactions with arbitrary amounts and starting funds, on the same pair of balances, inflight or not",
 "Tests check batches of friendly transactions with ample funds.",
 ["transaction_coalescing.go","database/transaction_coalescing.go","database/balance.go"],
 [("batch build and validation","transaction_coalescing.go"),("atomic batch write","database/transaction_coalescing.go")],(),["balances and transactions rows"])
p("P13","Stuck queued transactions are recovered, not duplicated",
 "The recovery sweep carries out queued transactions that have been stuck past the threshold and have no final record yet, and leaves every other transaction alone; one that keeps failing beyond the allowed attempts is recorded as rejected exactly once. Recovering a transaction that was in fact processed moves nothing a second time.",
 ["histories","fault_sequences"],"all ages, attempt counts and processing states of up to two queued transactions",
 "Tests cover one stuck transaction with a mocked store.",
 ["queue_recovery.go","database/transaction_recovery.go"],
 [("stuck query and attempts","queue_recovery.go")],(),["transactions rows","re-enqueued tasks"])
p("P14","An atomic bulk request is all or nothing",
 "If any transaction of a bulk request marked atomic fails, all transactions of the request recorded before it are voided or refunded so that every balance has the funds it had before the request; if none fails, every one of them has taken effect. Without atomicity, a failure leaves the earlier ones in place and the failure is reported.",
 ["inputs","fault_sequences"],"bulk requests of up to three transactions with the failing one at any position, inflight or not",
 "Tests fail one position with fixed amounts.",
 ["transaction_bulk.go","transaction_refunds.go","transaction_inflight.go"],
 [("rollback of the batch","transaction_bulk.go")],(),["balances before and after"])
p("P15","A dry run predicts the real outcome and changes nothing",
 "Previewing a transaction, split, bulk, refund or inflight action writes nothing to the database or the queue, and reports success with resulting balances exactly when performing the same request at once on the same state would succeed with those balances, and reports a refusal otherwise. For a single transaction the same holds when it goes through the queue.",
 ["inputs","histories"],"all amounts, balances, overdraft settings and statuses for each previewable action",
 "Parity tests compare a few fixed cases.",
 ["transaction_dryrun.go","transaction_dryrun_bulk.go","transaction_dryrun_inflight.go"],
 [("shared balance arithmetic on clones","transaction_dryrun.go")],(),["preview response","database rows"])
p("P16","Distributed locks exclude, and only the owner releases",
 "At most one holder at a time owns a lock that has not expired; releasing or extending succeeds only for the current owner and never affects a lock since taken by someone else. Taking several locks is free of duplicates and done in one global order, takes all or none of them, and gives back exactly those it took.",
 ["schedules","fault_sequences"],"all interleavings of two or three holders' lock, unlock, extend, expiry; a failure at any command of a multi-lock",
 "Tests take locks sequentially; expiry between any two commands is not enumerated.",
 ["internal/lock/lock.go"],
 [("set-if-absent with owner token","internal/lock/lock.go Locker.Lock"),("compare-and-delete script","internal/lock/lock.go Unlock"),("ordered multi-lock with rollback","internal/lock/lock.go MultiLocker")],(),["keys in Redis"])
p("P17","The transaction hash chain is contiguous and tamper-evident",
 "Chaining assigns consecutive sequence numbers to settled-down transactions, each hash covering the record and the previous hash, each transaction chained exactly once even if a run fails or stops anywhere or two runs overlap. Verification accepts every chain so produced, and rejects any chain in which a covered field of a record was altered, or a record was removed (also at the end), reordered or inserted.",
 ["inputs","crash_points","histories"],"chains of up to four records, any single alteration of any covered field, any stop during chaining",
 "Tests tamper with one field of one record.",
 ["chain_worker.go","database/chain.go","model/chain.go"],
 [("chaining under a row lock","database/chain.go ChainPendingTransactions"),("verification","chain_worker.go VerifyChain"),("record hash","model/chain.go ComputeChainHash")],
 [("chain_state","head of the chain","sql migrations")],["verification result"])
p("P18","A historical balance equals the replay up to that time",
 "The balance reported for a past moment equals the result of applying the applied transactions recorded up to that moment, whether or not snapshots exist and however many of them were taken, and asking from source transactions gives the same figures. Inflight, queued and rejected transactions do not count towards it.",
 ["histories","inputs"],"up to three transactions and two snapshots at arbitrary times and any query time",
 "Tests use one snapshot at one time.",
 ["database/balance.go","balance.go"],
 [("snapshot plus later transactions","database/balance.go GetBalanceAtTime")],(),["historical balance response"])
p("P19","Balance monitors fire exactly when their condition holds",
 "After a balance change, a monitor on that balance fires exactly when the monitored figure stands in the stated relation to the monitor's threshold, compared exactly at any size; monitors of other balances never fire. Creating or updating a monitor makes the new condition the one that counts.",
 ["inputs","histories"],"all fields, operators, thresholds and balances, also right after an update of the monitor",
 "Tests check each operator with small numbers.",
 ["model/model.go","balance.go","database/balance.go"],
 [("condition check","model/model.go CheckCondition")],(),["monitor webhook events"])
p("P20","Fund lineage allocation conserves and follows the strategy",
 "When tracked funds are spent, the amounts taken from the individual providers never exceed what each has available and add up to the smaller of the amount spent and the total available. First-in takes the oldest funds first, last-in the newest, and proportional takes from each in proportion to its availability to within rounding.",
 ["inputs"],"up to four providers with arbitrary availabilities, any amount, each strategy",
 "Tests use round numbers in which proportions divide evenly.",
 ["lineage_allocation.go","lineage_debit.go"],
 [("allocation","lineage_allocation.go")],(),["allocations and shadow transactions"])
p("P21","Lineage follow-up work survives retries without double effect",
 "Each transaction with lineage leaves exactly one work item, each work item's shadow movements take effect exactly once however often it is processed, fails or stops midway, and a work item is handed to one worker at a time and given up only after its allowed attempts. Committing or voiding the main transaction commits or voids its shadows.",
 ["crash_points","fault_sequences","schedules"],"a fault or stop at any step of the processing followed by a retry",
 "Tests process a work item once, or with a mock that fails once.",
 ["lineage_outbox.go","lineage_processing.go","lineage_credit.go","lineage_debit.go","lineage_shadow.go","database/lineage.go"],
 [("idempotent shadow references","lineage_credit.go"),("claiming with skip-locked","database/lineage.go")],(),["shadow transactions","outbox rows"])
p("P22","Reconciliation matches by the rules, each record at most once",
 "An external record is reported matched exactly when some internal transaction satisfies every criterion of a matching rule (amount and date within the stated drift, text equal or contained), and unmatched otherwise. No record is reported both matched and unmatched, and the counts add up to the number of records processed.",
 ["inputs"],"up to two external and three internal records with arbitrary amounts, dates and texts, any rule with any drift",
 "Tests use a few records well inside or outside the drift.",
 ["reconciliation.go","database/reconciliation.go"],
 [("criteria evaluation","reconciliation.go matchesRules"),("strategies","reconciliation.go oneToOneReconciliation etc.")],(),["matches and unmatched records","reconciliation counts"])
p("P23","Filters never inject and always bind the right value",
 "For any filter the API accepts, the SQL produced contains only fixed text, whitelisted column names and parameter placeholders, never any part of a supplied value; placeholders are numbered consecutively and each is bound to the value its condition names, and the query selects exactly the records that satisfy all (or any) of the conditions. Unknown fields, operators or malformed paths are refused.",
 ["inputs"],"all filter field names, metadata keys and values as arbitrary short strings, up to three conditions of every operator",
 "Tests list sample filters; hostile names and combinations are unbounded.",
 ["internal/filter/sql_builder.go","internal/filter/validation.go","internal/filter/parser.go"],
 [("whitelist validation","internal/filter/validation.go"),("placeholder numbering","internal/filter/sql_builder.go")],(),["SQL text and arguments sent to the database"])
p("P24","API requests are served only with the required permission",
 "With authentication enabled, a request is served only if it carries the master key, or an unrevoked, unexpired key whose scopes grant the request's action on the request's resource; every other request is refused before any effect. A wildcard grants exactly what it covers, and a key never creates another with scopes beyond its own.",
 ["inputs"],"all paths, methods and scope lists over arbitrary short strings and the real resource names",
 "Tests list some path/scope pairs.",
 ["api/middleware/auth.go","api/middleware/scope.go","api/apikeys.go"],
 [("resource and action mapping","api/middleware/auth.go"),("scope check","api/middleware/scope.go")],(),["HTTP status","handler reached or not"])
p("P25","API keys are isolated by owner and die when revoked or expired",
 "A key authenticates only with its full secret, stops working the moment it expires or is revoked, and can list, create or revoke keys only of its own owner unless the caller is the master. The secret itself is never stored.",
 ["histories","inputs","schedules"],"all sequences of create, use, revoke, expire over two owners",
 "Tests walk one key through one life.",
 ["api/apikeys.go","database/api_key.go","apikey.go","model/apikey.go"],
 [("owner resolution","api/apikeys.go resolveAPIKeyOwner"),("validity","model IsValid"),("cache invalidation","database/api_key.go RevokeAPIKey")],(),["HTTP status","api_keys rows"])
p("P26","Tokenized identity data round-trips and stays hidden",
 "Tokenizing a field and detokenizing it returns the original text for every text and key, in both token formats; the stored token never contains the plaintext beyond the characters deliberately left visible. Only allowed fields are tokenized, a field is never tokenized twice, and detokenizing one field leaves the others alone.",
 ["inputs","histories"],"all texts up to a small length, all fields, any sequence of tokenize and detokenize",
 "Tests use a few plain ASCII values.",
 ["internal/tokenization/tokenization.go","identity.go"],
 [("token formats","internal/tokenization/tokenization.go"),("field bookkeeping","identity.go")],(),["identity as stored and as returned"])
p("P27","Sequential batch processing visits every matching transaction once",
 "Operations over many transactions of a group or parent (refund, commit, void, page-wise processing) visit every matching transaction exactly once and no other, for any group size and page size, and report every failure.",
 ["inputs","histories"],"groups of up to five transactions and any page size, including records changing status while being paged",
 "Tests use groups smaller than one page.",
 ["transaction_batch_processing.go","transaction_inflight.go","database/transaction_grouping.go"],
 [("paging loop","transaction_batch_processing.go"),("group queries","database/transaction_grouping.go")],(),["set of processed transactions"])
p("P28","Exported monitoring data never carries secrets",
 "Whatever error texts and structures are handed to the monitoring exporter, credentials, keys and connection secrets are removed from what leaves the process, for any nesting and letter case of the sensitive names.",
 ["inputs"],"arbitrary short strings around each sensitive form",
 "Tests list sample messages.",
 ["internal/monitoringexporter"],
 [("redaction","internal/monitoringexporter redact")],(),["exported text"])
p("P29","Requests keep their exact amounts through the API layer",
 "An amount given in a request body reaches the ledger exactly as written, whatever its size and whatever kind of key authenticates the request; the caller's key is recorded on created resources without altering any other field.",
 ["inputs"],"all integer precise amounts up to 10^30 and all decimal amounts up to 15 digits",
 "Tests post small amounts only.",
 ["api/middleware/auth.go","api/transactions.go","api/model/transaction.go"],
 [("body rewriting","api/middleware/auth.go injectAPIKeyToMetadata")],(),["transaction handed to the ledger"])
p("P30","Metadata updates merge and never lose other keys",
 "Updating metadata of a ledger, balance, account, identity or transaction sets exactly the given keys, keeps every other key and every other field of the entity, and applies to exactly the entity named.",
 ["inputs","histories"],"all small metadata maps and updates",
 "Tests update one key on one entity.",
 ["metadata.go","database/metadata.go"],
 [("merge","metadata.go")],(),["stored metadata"])
p("P31","Transactions of one balance stay on one queue lane",
 "Every transaction is routed to one of the configured queues, always the same one for the same balance pair configuration, so that work on one balance is processed in submission order; hot pairs go to the hot lane only while hot, and queue names are always ones a worker listens on.",
 ["inputs","configurations"],"all balance identifiers as arbitrary strings, all queue counts",
 "Tests sample identifiers.",
 ["queue.go","internal/hotpairs"],
 [("queue choice","queue.go"),("hot pairs","internal/hotpairs")],(),["queue name of the enqueued task"])
p("P32","Backups and transport secrecy",
 "Database backups can be restored to the same contents, and data in transit is protected when TLS is configured.",
 ["fault_sequences","configurations"],"all databases and configurations",
 "Needs external tools and services.",
 ["internal/pg-backups/","cmd/server.go"],
 [("backup","internal/pg-backups")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for e in P: f.write(json.dumps(e)+"\n")
print(len(P))
