// Package vfredis is a stand-in for a Redis server: it keeps keys, expiries and the tasks handed to the queue, runs the
// Lua that is sent to it, and lets a harness inject failures and the passing of time at every command.
package vfredis

import (
	"context"
	"strconv"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/vf"
	"github.com/hibiken/asynq"
	"github.com/redis/go-redis/v9"
)

type Entry struct {
	Val string
	Set map[string]bool
	Has bool  // has an expiry
	Exp int64 // milliseconds
}

type Cmd struct {
	Task int
	Name string
	Key  string
	Val  string
	Err  bool
}

type Task struct {
	ID, Queue, Type string
	Payload         []byte
	Retry           int
	Delay           time.Duration
}

type Store struct {
	redis.UniversalClient
	KV     map[string]*Entry
	Now    int64
	Log    []Cmd
	Before func(name, key string) error // a non-nil result fails the command without effect
	Tick   func()                       // called before every command: time may pass
	OnTask func(t Task) error
	Tasks  []Task
	Dead   bool
	watchers []*Watcher
}

func New() *Store { return &Store{KV: map[string]*Entry{}} }

func (s *Store) live(k string) *Entry {
	e := s.KV[k]
	if e == nil {
		return nil
	}
	if e.Has && e.Exp <= s.Now {
		delete(s.KV, k)
		return nil
	}
	return e
}

// Get returns the live value of a key.
func (s *Store) Peek(k string) (string, bool) {
	e := s.live(k)
	if e == nil {
		return "", false
	}
	return e.Val, true
}

func (s *Store) apply(name string, a []string) (any, string) {
	if len(s.watchers) == 0 || len(a) == 0 {
		return s.apply1(name, a)
	}
	was := s.live(a[0])
	r, bad := s.apply1(name, a)
	s.touched(a[0], was)
	return r, bad
}

func (s *Store) apply1(name string, a []string) (any, string) {
	switch strings.ToLower(name) {
	case "get":
		if e := s.live(a[0]); e != nil {
			return e.Val, ""
		}
		return nil, ""
	case "exists":
		n := int64(0)
		for _, k := range a {
			if s.live(k) != nil {
				n++
			}
		}
		return n, ""
	case "del", "unlink":
		n := int64(0)
		for _, k := range a {
			if s.live(k) != nil {
				delete(s.KV, k)
				n++
			}
		}
		return n, ""
	case "set", "setnx", "setex", "psetex":
		n := strings.ToLower(name)
		e := &Entry{}
		nx, xx, keep := n == "setnx", false, false
		if n == "setex" || n == "psetex" {
			v, err := strconv.ParseInt(a[1], 10, 64)
			if err != nil {
				return nil, "set: expiry"
			}
			if n == "setex" {
				v *= 1000
			}
			e.Has, e.Exp, e.Val = true, s.Now+v, a[2]
			s.KV[a[0]] = e
			return "OK", ""
		}
		e.Val = a[1]
		for i := 2; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			case "EX", "PX":
				v, err := strconv.ParseInt(a[i+1], 10, 64)
				if err != nil {
					return nil, "set: expiry"
				}
				if strings.ToUpper(a[i]) == "EX" {
					v *= 1000
				}
				e.Has, e.Exp = true, s.Now+v
				i++
			default:
				return nil, "set: option " + a[i]
			}
		}
		old := s.live(a[0])
		if nx && old != nil || xx && old == nil {
			if n == "setnx" {
				return int64(0), ""
			}
			return nil, ""
		}
		if keep && old != nil {
			e.Has, e.Exp = old.Has, old.Exp
		}
		s.KV[a[0]] = e
		if n == "setnx" {
			return int64(1), ""
		}
		return "OK", ""
	case "expire", "pexpire":
		v, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return nil, "expire: " + a[1]
		}
		if strings.ToLower(name) == "expire" {
			v *= 1000
		}
		e := s.live(a[0])
		if e == nil {
			return int64(0), ""
		}
		s.KV[a[0]] = &Entry{Val: e.Val, Set: e.Set, Has: true, Exp: s.Now + v}
		return int64(1), ""
	case "persist":
		e := s.live(a[0])
		if e == nil || !e.Has {
			return int64(0), ""
		}
		s.KV[a[0]] = &Entry{Val: e.Val, Set: e.Set}
		return int64(1), ""
	case "pttl", "ttl":
		e := s.live(a[0])
		if e == nil {
			return int64(-2), ""
		}
		if !e.Has {
			return int64(-1), ""
		}
		if name == "ttl" {
			return (e.Exp - s.Now) / 1000, ""
		}
		return e.Exp - s.Now, ""
	case "incr", "incrby", "decr":
		e := s.live(a[0])
		n := int64(0)
		ne := &Entry{}
		if e != nil {
			n, _ = strconv.ParseInt(e.Val, 10, 64)
			*ne = *e
		}
		d := int64(1)
		if len(a) > 1 {
			d, _ = strconv.ParseInt(a[1], 10, 64)
		}
		if strings.ToLower(name) == "decr" {
			d = -d
		}
		ne.Val = strconv.FormatInt(n+d, 10)
		s.KV[a[0]] = ne
		return n + d, ""
	}
	return nil, "redis: command " + name
}

func (s *Store) enter(ctx context.Context, name, key string) error {
	vf.Yield()
	if s.Tick != nil {
		s.Tick()
	}
	if s.Dead {
		return redis.ErrClosed
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	if s.Before != nil {
		if err := s.Before(name, key); err != nil {
			s.Log = append(s.Log, Cmd{vf.TaskID(), name, key, "", true})
			return err
		}
	}
	return nil
}

// Call runs one command.
func (s *Store) Call(ctx context.Context, name string, a ...string) (any, error) {
	key := ""
	if len(a) > 0 {
		key = a[0]
	}
	if err := s.enter(ctx, name, key); err != nil {
		return nil, err
	}
	r, bad := s.apply(name, a)
	if bad != "" {
		vf.Inconclusive(bad)
	}
	v := ""
	if len(a) > 1 {
		v = a[1]
	}
	s.Log = append(s.Log, Cmd{vf.TaskID(), name, key, v, false})
	return r, nil
}

func str(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case []byte:
		return string(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		if x {
			return "1"
		}
		return "0"
	case time.Duration:
		return strconv.FormatInt(int64(x), 10)
	}
	vf.Inconclusive("redis: argument type")
	return ""
}

func ttl(a []string, d time.Duration) []string {
	if d == redis.KeepTTL {
		return append(a, "KEEPTTL")
	}
	if d > 0 {
		return append(a, "PX", strconv.FormatInt(int64(d/time.Millisecond), 10))
	}
	return a
}

func (s *Store) SetNX(ctx context.Context, key string, value any, d time.Duration) *redis.BoolCmd {
	r, err := s.Call(ctx, "set", ttl([]string{key, str(value), "NX"}, d)...)
	return redis.NewBoolResult(r != nil && err == nil, err)
}

func (s *Store) SetXX(ctx context.Context, key string, value any, d time.Duration) *redis.BoolCmd {
	r, err := s.Call(ctx, "set", ttl([]string{key, str(value), "XX"}, d)...)
	return redis.NewBoolResult(r != nil && err == nil, err)
}

func (s *Store) Set(ctx context.Context, key string, value any, d time.Duration) *redis.StatusCmd {
	_, err := s.Call(ctx, "set", ttl([]string{key, str(value)}, d)...)
	return redis.NewStatusResult("OK", err)
}

func (s *Store) Get(ctx context.Context, key string) *redis.StringCmd {
	r, err := s.Call(ctx, "get", key)
	if err == nil && r == nil {
		err = redis.Nil
	}
	v, _ := r.(string)
	return redis.NewStringResult(v, err)
}

func (s *Store) intCall(ctx context.Context, name string, a ...string) *redis.IntCmd {
	r, err := s.Call(ctx, name, a...)
	n, _ := r.(int64)
	return redis.NewIntResult(n, err)
}

func (s *Store) Del(ctx context.Context, keys ...string) *redis.IntCmd {
	return s.intCall(ctx, "del", keys...)
}
func (s *Store) Exists(ctx context.Context, keys ...string) *redis.IntCmd {
	return s.intCall(ctx, "exists", keys...)
}
func (s *Store) Incr(ctx context.Context, key string) *redis.IntCmd { return s.intCall(ctx, "incr", key) }

func (s *Store) SAdd(ctx context.Context, key string, members ...any) *redis.IntCmd {
	return redis.NewIntResult(1, nil)
}

func (s *Store) Expire(ctx context.Context, key string, d time.Duration) *redis.BoolCmd {
	r, err := s.Call(ctx, "pexpire", key, strconv.FormatInt(int64(d/time.Millisecond), 10))
	n, _ := r.(int64)
	return redis.NewBoolResult(n == 1, err)
}

func (s *Store) PExpire(ctx context.Context, key string, d time.Duration) *redis.BoolCmd {
	return s.Expire(ctx, key, d)
}

func (s *Store) Eval(ctx context.Context, script string, keys []string, args ...any) *redis.Cmd {
	if len(keys) > 0 && strings.HasPrefix(keys[0], "asynq:") {
		return s.asynqScript(ctx, keys, args)
	}
	key := ""
	if len(keys) > 0 {
		key = keys[0]
	}
	if err := s.enter(ctx, "eval", key); err != nil {
		return redis.NewCmdResult(nil, err)
	}
	var as []string
	for _, a := range args {
		as = append(as, str(a))
	}
	r, bad := s.runLua(script, keys, as)
	if bad != "" {
		vf.Inconclusive(bad)
	}
	s.Log = append(s.Log, Cmd{vf.TaskID(), "eval", key, "", false})
	if r == nil {
		return redis.NewCmdResult(nil, redis.Nil)
	}
	return redis.NewCmdResult(r, nil)
}

func (s *Store) EvalSha(ctx context.Context, sha1 string, keys []string, args ...any) *redis.Cmd {
	if len(keys) > 0 && strings.HasPrefix(keys[0], "asynq:") {
		return s.asynqScript(ctx, keys, args)
	}
	return redis.NewCmdResult(nil, noScript{})
}

type noScript struct{}

func (noScript) Error() string { return "NOSCRIPT No matching script. Please use EVAL." }
func (noScript) RedisError()   {}

// ---- task queue

func (s *Store) add(ctx context.Context, t Task) (bool, error) {
	if err := s.enter(ctx, "enqueue", t.Queue); err != nil {
		return false, err
	}
	for _, o := range s.Tasks {
		if o.ID == t.ID && o.Queue == t.Queue {
			return false, nil
		}
	}
	if s.OnTask != nil {
		if err := s.OnTask(t); err != nil {
			return false, err
		}
	}
	s.Tasks = append(s.Tasks, t)
	return true, nil
}

// Drop forgets a task (it was processed).
func (s *Store) Drop(i int) {
	var r []Task
	for k, t := range s.Tasks {
		if k != i {
			r = append(r, t)
		}
	}
	s.Tasks = r
}

// asynqScript handles the native client's enqueue scripts.
func (s *Store) asynqScript(ctx context.Context, keys []string, args []any) *redis.Cmd {
	msg, ok := args[0].([]byte)
	if !ok {
		return redis.NewCmdResult(nil, noScript{})
	}
	t := decodeTask(msg)
	if strings.HasSuffix(keys[1], ":scheduled") {
		t.Delay = time.Second
	}
	fresh, err := s.add(ctx, t)
	if err != nil {
		return redis.NewCmdResult(nil, err)
	}
	if !fresh {
		return redis.NewCmdResult(int64(0), nil)
	}
	return redis.NewCmdResult(int64(1), nil)
}

func decodeTask(b []byte) Task {
	var t Task
	varint := func() uint64 {
		var v uint64
		for sh := 0; len(b) > 0; sh += 7 {
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << sh
			if c < 0x80 {
				break
			}
		}
		return v
	}
	for len(b) > 0 {
		tag := varint()
		switch tag & 7 {
		case 0:
			v := varint()
			if tag>>3 == 5 {
				t.Retry = int(v)
			}
		case 2:
			n := varint()
			v := b[:n]
			b = b[n:]
			switch tag >> 3 {
			case 1:
				t.Type = string(v)
			case 2:
				t.Payload = append([]byte{}, v...)
			case 3:
				t.ID = string(v)
			case 4:
				t.Queue = string(v)
			}
		default:
			return t
		}
	}
	return t
}

var current *Store

// Client is a queue client whose tasks land in the store.
func (s *Store) Client() *asynq.Client {
	current = s
	if vf.Symbolic() {
		return &asynq.Client{}
	}
	return asynq.NewClientFromRedisClient(s)
}

//verif:override (*github.com/hibiken/asynq.Client).EnqueueContext
func enqueueContext(c *asynq.Client, ctx context.Context, task *asynq.Task, opts ...asynq.Option) (*asynq.TaskInfo, error) {
	t := Task{Type: task.Type(), Payload: task.Payload(), Queue: "default", Retry: 25}
	var all []asynq.Option
	if own, ok := vf.Field(task, "opts").([]asynq.Option); ok {
		all = append(all, own...)
	}
	all = append(all, opts...)
	for _, o := range all {
		switch o.Type() {
		case asynq.QueueOpt:
			t.Queue = o.Value().(string)
		case asynq.TaskIDOpt:
			t.ID = o.Value().(string)
		case asynq.MaxRetryOpt:
			t.Retry = o.Value().(int)
		case asynq.ProcessInOpt:
			t.Delay = 0
			if o.Value().(time.Duration) > 0 {
				t.Delay = time.Second
			}
		case asynq.ProcessAtOpt:
			t.Delay = 0
			if o.Value().(time.Time).After(time.Now()) {
				t.Delay = time.Second
			}
		}
	}
	if t.ID == "" {
		t.ID = "task_" + strconv.Itoa(len(current.Tasks))
	}
	fresh, err := current.add(ctx, t)
	if err != nil {
		return nil, err
	}
	if !fresh {
		return nil, asynq.ErrTaskIDConflict
	}
	return &asynq.TaskInfo{ID: t.ID, Queue: t.Queue, Type: t.Type}, nil
}

// Watcher records what happens to a key while its owner releases it.
type Watcher struct {
	key, owner string
	task       int
	Released   bool // the owner's own entry was deleted by its task
	Stolen     bool // someone else's entry was changed by the task
}

// Follow follows what the running task does to a key.
func (s *Store) Follow(key, owner string) *Watcher {
	w := &Watcher{key: key, owner: owner, task: vf.TaskID()}
	s.watchers = append(s.watchers, w)
	return w
}

func (s *Store) touched(key string, was *Entry) {
	if len(s.watchers) == 0 {
		return
	}
	t := vf.TaskID()
	now := s.KV[key]
	if now == was || was == nil {
		return
	}
	for _, w := range s.watchers {
		if w.key == key && w.task == t {
			if was.Val == w.owner {
				w.Released = w.Released || now == nil
			} else {
				w.Stolen = true
			}
		}
	}
}
