package vfredis

import (
	"context"
	"strconv"
	"time"

	"github.com/redis/go-redis/v9"
)

// Pipe runs its commands in order when executed.
type Pipe struct {
	redis.Pipeliner
	s    *Store
	todo []func(ctx context.Context) (redis.Cmder, error)
}

func (s *Store) TxPipeline() redis.Pipeliner { return &Pipe{s: s} }
func (s *Store) Pipeline() redis.Pipeliner   { return &Pipe{s: s} }

func (p *Pipe) intCmd(name string, a ...string) *redis.IntCmd {
	c := redis.NewIntResult(0, nil)
	p.todo = append(p.todo, func(ctx context.Context) (redis.Cmder, error) {
		r, err := p.s.Call(ctx, name, a...)
		n, _ := r.(int64)
		c.SetVal(n)
		c.SetErr(err)
		return c, err
	})
	return c
}

func (p *Pipe) Incr(ctx context.Context, key string) *redis.IntCmd { return p.intCmd("incr", key) }
func (p *Pipe) Del(ctx context.Context, keys ...string) *redis.IntCmd {
	return p.intCmd("del", keys...)
}

func (p *Pipe) Expire(ctx context.Context, key string, d time.Duration) *redis.BoolCmd {
	c := redis.NewBoolResult(false, nil)
	p.todo = append(p.todo, func(ctx context.Context) (redis.Cmder, error) {
		r, err := p.s.Call(ctx, "pexpire", key, strconv.FormatInt(int64(d/time.Millisecond), 10))
		n, _ := r.(int64)
		c.SetVal(n == 1)
		c.SetErr(err)
		return c, err
	})
	return c
}

func (p *Pipe) Set(ctx context.Context, key string, value any, d time.Duration) *redis.StatusCmd {
	c := redis.NewStatusResult("", nil)
	p.todo = append(p.todo, func(ctx context.Context) (redis.Cmder, error) {
		_, err := p.s.Call(ctx, "set", ttl([]string{key, str(value)}, d)...)
		c.SetVal("OK")
		c.SetErr(err)
		return c, err
	})
	return c
}

func (p *Pipe) Exec(ctx context.Context) ([]redis.Cmder, error) {
	var out []redis.Cmder
	for _, f := range p.todo {
		c, err := f(ctx)
		out = append(out, c)
		if err != nil {
			return out, err
		}
	}
	p.todo = nil
	return out, nil
}
