package blnk

import (
	"context"
	"math/big"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/database"
	"github.com/blnkfinance/blnk/internal/tokenization"
	"github.com/blnkfinance/blnk/internal/vfredis"
	"github.com/blnkfinance/blnk/internal/vfsql"
	"github.com/blnkfinance/blnk/model"
)

// What the harnesses of other packages use of the service under test.

type VWorld = vWorld
type VBooks = vBooks
type VRow = vRow
type VFaulter = vFaults

func VNew() *VWorld                                               { return vNew() }
func (w *vWorld) Svc() *Blnk                                      { return w.l }
func (w *vWorld) Conf() *config.Configuration                     { return w.conf }
func (w *vWorld) Store() *vfredis.Store                           { return w.st }
func (w *vWorld) DB() *vfsql.DB                                   { return w.db }
func (w *vWorld) Restart()                                        { w.restart() }
func (w *vWorld) Open(b *vBooks, id string, cr, dr *big.Int)      { w.open(b, id, "USD", cr, dr) }
func (w *vWorld) Fig(id, col string) *big.Int                     { return w.fig(id, col) }
func (w *vWorld) Agrees(b *vBooks) bool                           { return w.agrees(b) }
func (w *vWorld) Txns() []vRow                                    { return w.txns() }
func (w *vWorld) Figures(b *vBooks) map[string]*big.Int           { return w.figures(b) }
func (w *vWorld) Unchanged(b *vBooks, x map[string]*big.Int) bool { return vSame(b, x, w.figures(b)) }
func (w *vWorld) Faults(n int, reads bool) *vFaults               { return w.faults(n, reads) }
func (f *vFaults) Stop()                                          { f.stop() }
func (f *vFaults) Recover()                                       { f.recover() }
func (f *vFaults) Crashed() bool                                  { return f.crashed }
func (f *vFaults) Fired() bool                                    { return f.fired }
func (w *vWorld) Queue(src, dst, ref string, amt *big.Int, set func(t *model.Transaction)) (*model.Transaction, vfredis.Task) {
	return w.queue(src, dst, ref, amt, set)
}
func (w *vWorld) Record(src, dst, ref string, amt *big.Int, set func(t *model.Transaction)) (*model.Transaction, error) {
	return w.record(src, dst, ref, amt, set)
}
func (r vRow) ID() string       { return r.id }
func (r vRow) Parent() string   { return r.parent }
func (r vRow) Status() string   { return r.status }
func (r vRow) Ref() string      { return r.ref }
func (r vRow) Amount() *big.Int { return r.amt }

func (w *vWorld) Ctx() context.Context { return w.ctx }

// LastTask is the last transaction task since.
func (w *vWorld) LastTask(was int) vfredis.Task {
	var task vfredis.Task
	for _, k := range w.st.Tasks[was:] {
		if k.Type == k.Queue && len(k.Type) > 15 && k.Type[:15] == "new:transaction" {
			task = k
		}
	}
	return task
}
func (r vRow) Src() string       { return r.src }
func (r vRow) Dst() string       { return r.dst }
func (r vRow) Vals() []vfsql.Val { return r.r }

// VShared makes the world's database the process's own.
func (w *vWorld) VShared() { database.VUse(w.ds) }

// Seed adds a balance that has funds.
func (w *vWorld) Seed(id string, fund *big.Int) { w.seedBalance(id, "USD", fund, vZero()) }

// Cell is a stored text of a transaction.
func (w *vWorld) Cell(r vRow, col string) string {
	return vText(r.r[w.db.Tables["transactions"].Find(col)])
}

// vText is a stored text or JSON value.
func vText(v vfsql.Val) string {
	switch x := v.(type) {
	case string:
		return x
	case vfsql.JSON:
		return string(x)
	}
	return ""
}

// Field is a committed text or JSON value of a row.
func (w *vWorld) Field(table, key, id, col string) string {
	return vText(w.db.Get(table, key, id, col))
}

// Person adds an identity.
func (w *vWorld) Person(id, meta string) {
	w.db.Seed("identity", "identity_id", id, "identity_type", "individual", "first_name", "First", "last_name", "Last", "other_names", "Other", "gender", "female", "dob", time.Date(1990, 1, 2, 0, 0, 0, 0, time.UTC), "email_address", "f@x.io", "phone_number", "+12025550123", "nationality", "N", "organization_name", "Org", "category", "Cat", "street", "Street 1", "country", "Country", "state", "State", "post_code", "12345", "city", "City", "meta_data", meta)
}

// Tokens gives the service a tokenization key.
func (w *vWorld) Tokens(key string) { w.l.tokenizer = tokenization.NewTokenizationService([]byte(key)) }
