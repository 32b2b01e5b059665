package vfsql

import (
	"database/sql"
	"strings"
)

// New is an empty database with the repository's schema.
func New() *DB {
	db := &DB{Tables: map[string]*Table{}}
	now := func(db *DB, x *exec) Val { v, _ := x.fn(nil, Fn{Name: "now"}); return v }
	// a column is written name:type, then ! for NOT NULL and =value for a default
	add := func(name, cols string, uniq ...string) *Table {
		t := &Table{Name: name, Ord: map[string]int{}}
		for _, f := range strings.Fields(cols) {
			c := Column{}
			p := strings.SplitN(f, ":", 2)
			c.Name = p[0]
			ty := p[1]
			if i := strings.IndexByte(ty, '='); i >= 0 {
				d := ty[i+1:]
				ty = ty[:i]
				switch {
				case d == "now":
					c.Default = now
				case strings.HasPrefix(ty, "int"):
					n := int64(0)
					if d == "1" {
						n = 1
					} else if d == "5" {
						n = 5
					}
					c.Default = func(*DB, *exec) Val { return n }
				case strings.HasPrefix(ty, "num"):
					c.Default = func(*DB, *exec) Val { return bigOf(0) }
				case strings.HasPrefix(ty, "bool"):
					c.Default = func(*DB, *exec) Val { return false }
				case d == "{}":
					c.Default = func(*DB, *exec) Val { return []string{} }
				default:
					c.Default = func(*DB, *exec) Val { return d }
				}
			}
			if strings.HasSuffix(ty, "!") {
				ty = ty[:len(ty)-1]
				c.NotNull = true
			}
			if ty == "serial" {
				ty = "int"
				c.Default = func(*DB, *exec) Val { t.serial++; return t.serial }
			}
			c.Type = ty
			t.Ord[c.Name] = len(t.Cols)
			t.Cols = append(t.Cols, c)
		}
		for _, u := range uniq {
			p := strings.SplitN(u, ":", 2)
			q := Unique{Name: p[0]}
			for _, c := range strings.Split(p[1], ",") {
				q.Cols = append(q.Cols, t.Find(c))
			}
			t.Uniq = append(t.Uniq, q)
		}
		db.Tables[name] = t
		return t
	}
	fk := func(t *Table, name, col, ref, refCol string) {
		t.FKs = append(t.FKs, FK{name, t.Find(col), ref, db.Tables[ref].Find(refCol)})
	}

	add("ledgers", "id:serial name:text ledger_id:text! created_at:ts!=now meta_data:json", "ledgers_ledger_id_key:ledger_id")
	add("identity", "id:serial identity_id:text! first_name:text! last_name:text! other_names:text gender:text dob:date email_address:text phone_number:text nationality:text street:text country:text state:text organization_name:text category:text identity_type:text post_code:text city:text created_at:ts!=now meta_data:json", "identity_identity_id_key:identity_id")
	bal := add("balances", "id:serial balance_id:text! indicator:text balance:num! credit_balance:num! debit_balance:num! currency:text! ledger_id:text! identity_id:text created_at:ts!=now meta_data:json version:int!=1 inflight_balance:num!=0 inflight_credit_balance:num!=0 inflight_debit_balance:num!=0 track_fund_lineage:bool!=false allocation_strategy:text!=FIFO", "balances_balance_id_key:balance_id", "unique_indicator_currency:indicator,currency")
	fk(bal, "balances_ledger_id_fkey", "ledger_id", "ledgers", "ledger_id")
	fk(bal, "balances_identity_id_fkey", "identity_id", "identity", "identity_id")
	acc := add("accounts", "id:serial account_id:text! name:text! number:text! bank_name:text! currency:text! created_at:ts!=now ledger_id:text! identity_id:text! balance_id:text! meta_data:json", "accounts_account_id_key:account_id", "accounts_number_key:number")
	fk(acc, "accounts_ledger_id_fkey", "ledger_id", "ledgers", "ledger_id")
	fk(acc, "accounts_identity_id_fkey", "identity_id", "identity", "identity_id")
	fk(acc, "accounts_balance_id_fkey", "balance_id", "balances", "balance_id")
	mon := add("balance_monitors", "id:serial monitor_id:text! balance_id:text! field:text! operator:text! value:int! description:text call_back_url:text created_at:ts!=now precision:float precise_value:int", "balance_monitors_monitor_id_key:monitor_id")
	fk(mon, "balance_monitors_balance_id_fkey", "balance_id", "balances", "balance_id")
	mf, mo := mon.Find("field"), mon.Find("operator")
	mon.Check = func(row []Val) string {
		switch text(row[mf]) {
		case "debit_balance", "credit_balance", "balance", "inflight_debit_balance", "inflight_credit_balance", "inflight_balance":
		default:
			return "balance_monitors_field_check"
		}
		switch text(row[mo]) {
		case ">", "<", ">=", "<=", "=", "!=":
		default:
			return "balance_monitors_operator_check"
		}
		return ""
	}
	txn := add("transactions", "id:serial transaction_id:text! source:text destination:text description:text reference:text amount:num currency:text status:text hash:text created_at:ts!=now scheduled_for:ts meta_data:json precise_amount:num precision:int=1 parent_transaction:text effective_date:ts chain_seq:int chain_prev_hash:text chain_hash:text", "transactions_transaction_id_key:transaction_id", "idx_transactions_reference_unique:reference", "idx_transactions_chain_seq:chain_seq")
	fk(txn, "fk_source_balance", "source", "balances", "balance_id")
	fk(txn, "fk_destination_balance", "destination", "balances", "balance_id")
	var fixed []int
	for _, c := range []string{"transaction_id", "source", "destination", "description", "reference", "amount", "precise_amount", "precision", "currency", "status", "hash", "created_at", "scheduled_for"} {
		fixed = append(fixed, txn.Find(c))
	}
	txn.Trigger = func(db *DB, old, new []Val) error {
		if new == nil {
			return nil
		}
		for _, c := range fixed {
			if !eqNull(old[c], new[c]) {
				return pgErr("P0001", "Cannot modify transaction data. Only meta_data and chain fields can be updated.")
			}
		}
		return nil
	}
	snap := add("balance_snapshots", "id:serial balance_id:text! ledger_id:text! balance:num! credit_balance:num! debit_balance:num! inflight_balance:num! inflight_credit_balance:num! inflight_debit_balance:num! currency:text! snapshot_time:timestamptz! created_at:ts! last_tx_id:text meta_data:json")
	fk(snap, "balance_snapshots_balance_id_fkey", "balance_id", "balances", "balance_id")
	add("api_keys", "id:serial api_key_id:text! key:text! name:text! owner_id:text! scopes:texts!={} expires_at:timestamptz! created_at:timestamptz!=now last_used_at:timestamptz!=now is_revoked:bool!=false revoked_at:timestamptz key_prefix:text", "api_keys_api_key_id_key:api_key_id", "api_keys_key_key:key")
	add("reconciliations", "id:serial reconciliation_id:text! upload_id:text! status:text! matched_transactions:int! unmatched_transactions:int! started_at:ts! completed_at:ts")
	add("matches", "id:serial external_transaction_id:text! internal_transaction_id:text! reconciliation_id:text! amount:num12_2! date:ts!")
	add("unmatched", "id:serial external_transaction_id:text! reconciliation_id:text! date:ts!")
	add("external_transactions", "id:text! amount:num! reference:text! currency:text! description:text date:ts! source:text! upload_id:text!", "external_transactions_pkey:id")
	add("reconciliation_progress", "processed_count:int reconciliation_id:text last_processed_external_txn_id:text", "reconciliation_progress_reconciliation_id_key:reconciliation_id")
	add("matching_rules", "id:serial rule_id:text! created_at:ts! updated_at:ts! name:text! description:text criteria:json!")
	lm := add("lineage_mappings", "id:serial balance_id:text! provider:text! shadow_balance_id:text! aggregate_balance_id:text! identity_id:text! created_at:ts!=now", "lineage_mappings_balance_id_provider_key:balance_id,provider")
	fk(lm, "fk_lineage_mappings_balance_id", "balance_id", "balances", "balance_id")
	fk(lm, "fk_lineage_mappings_shadow_balance_id", "shadow_balance_id", "balances", "balance_id")
	fk(lm, "fk_lineage_mappings_aggregate_balance_id", "aggregate_balance_id", "balances", "balance_id")
	fk(lm, "fk_lineage_mappings_identity_id", "identity_id", "identity", "identity_id")
	add("lineage_outbox", "id:serial transaction_id:text! source_balance_id:text destination_balance_id:text provider:text lineage_type:text! payload:json! status:text!=pending attempts:int!=0 max_attempts:int!=5 last_error:text created_at:ts!=now processed_at:ts locked_until:ts inflight:bool!=false", "lineage_outbox_transaction_id_uidx:transaction_id")
	add("chain_state", "chain_key:text! last_seq:int!=0 head_hash:text! genesis_hash:text! genesis_at:ts!=now updated_at:ts!=now", "chain_state_pkey:chain_key")

	db.Seed("ledgers", "name", "General Ledger", "ledger_id", "general_ledger_id", "meta_data", "{}")
	zero := strings.Repeat("0", 64)
	db.Seed("chain_state", "chain_key", "global", "head_hash", zero, "genesis_hash", zero)
	return db
}

// Conn is a handle on the database as the code under test uses it.
func (db *DB) Conn() *sql.DB {
	if db.conn == nil {
		db.conn = db.handle()
	}
	return db.conn
}
