package v

import "sync"

// The engine runs PoolGet and PoolPut in place of the methods of sync.Pool: a pool hands out
// what was put last, as the real one does for a single goroutine. While two calls are run for
// their footprints it hands out nothing put before, since a pool never gives one item to two.
var pools = map[*sync.Pool][]any{}

// (engine) recording is true between phases 1 and 0.
func recording() bool { return false }

func PoolGet(p *sync.Pool) any {
	if l := pools[p]; len(l) > 0 && !recording() {
		x := l[len(l)-1]
		pools[p] = l[:len(l)-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x any) {
	if x != nil && !recording() {
		pools[p] = append(pools[p], x)
	}
}
