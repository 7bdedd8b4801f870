package flatjsonl

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

func init() { units = append(units, unitC18) }

// unitC18 scans random keys from several goroutines and compares the tables with a sequential account.
func unitC18(h *vh) {
	types := []Type{TypeString, TypeInt, TypeFloat, TypeBool, TypeNull, TypeArray, TypeObject}
	type sight struct {
		path []string
		t    Type
		zero bool
	}
	for i := 0; i < 4000 && !h.done(); i++ {
		nk, ng := 1+h.rng.Intn(6), 2+h.rng.Intn(6)
		var paths [][]string
		for len(paths) < nk {
			p := []string{h.pick("a", "b", "c", "A")}
			for h.rng.Intn(2) == 0 {
				p = append(p, h.pick("x", "y", "[0]", "X"))
			}
			paths = append(paths, p)
		}
		f := Flags{CaseSensitiveKeys: h.rng.Intn(3) == 0}
		if h.rng.Intn(3) == 0 {
			f.ChildrenLimit = 5
		}
		var todo [][]sight
		for g := 0; g < ng; g++ {
			var s []sight
			for j := 1 + h.rng.Intn(6); j > 0; j-- {
				s = append(s, sight{paths[h.rng.Intn(nk)], types[h.rng.Intn(len(types))], h.rng.Intn(2) == 0})
			}
			todo = append(todo, s)
		}
		h.try(fmt.Sprintf("scan by %d goroutines, case sensitive %v, limit %d: %v", ng, f.CaseSensitiveKeys, f.ChildrenLimit, todo), true, func() string {
			f.BufSize = 1
			p, err := NewProcessor(f, Config{})
			if err != nil {
				return err.Error()
			}
			p.Log = func(...any) {}
			var wg sync.WaitGroup
			for _, s := range todo {
				wg.Add(1)
				go func(s []sight) {
					defer wg.Done()
					hs := newHasher()
					for _, x := range s {
						flat := []byte(KeyFromPath(x.path))
						pl := len(flat) - 1 - len(x.path[len(x.path)-1])
						pk, par := hs.hashParentBytes(flat, pl)
						p.scanKey(pk, par, x.path, x.t, x.zero)
					}
				}(s)
			}
			wg.Wait()
			if !p.mu.TryLock() {
				return "the lock is not released"
			}
			type acc struct {
				t    map[Type]bool
				zero bool
			}
			want := map[string]*acc{}
			canon := map[string]bool{}
			for _, s := range todo {
				for _, x := range s {
					k := KeyFromPath(x.path)
					a := want[k]
					if a == nil {
						a = &acc{t: map[Type]bool{}, zero: true}
						want[k] = a
					}
					a.t[x.t] = true
					a.zero = a.zero && x.zero
					if f.CaseSensitiveKeys {
						canon[k] = true
					} else {
						canon[strings.ToLower(k)] = true
					}
				}
			}
			got := map[string]flKey{}
			p.flKeys.Range(func(pk uint64, k flKey) bool {
				got[k.original] = k
				if pk != newHasher().hashBytes([]byte(k.original)) {
					got["key under a wrong identity "+k.original] = k
				}
				return true
			})
			if len(got) != len(want) {
				return fmt.Sprintf("%d keys, want %d", len(got), len(want))
			}
			for n, a := range want {
				k, ok := got[n]
				if !ok {
					return "key " + n + " is lost"
				}
				var wt, gt []string
				jt := TypeAbsent
				for t := range a.t {
					wt = append(wt, string(t))
					jt = jt.Update(t)
				}
				for _, t := range k.tt {
					gt = append(gt, string(t))
				}
				sort.Strings(wt)
				sort.Strings(gt)
				if fmt.Sprint(wt) != fmt.Sprint(gt) || k.t != jt || k.isZero != a.zero {
					return fmt.Sprintf("key %s has type %s of %v, zero %v, want %s of %v, zero %v", n, k.t, gt, k.isZero, jt, wt, a.zero)
				}
				if KeyFromPath(k.path) != n || k.canonical != p.ck(n) {
					return fmt.Sprintf("key %s has path %q, canonical name %q", n, k.path, k.canonical)
				}
			}
			listed := map[string]bool{}
			for _, n := range p.flKeysList {
				if c := p.ck(n); listed[c] {
					return "canonical name " + c + " is listed twice"
				} else {
					listed[c] = true
				}
				if want[n] == nil {
					return "unknown key " + n + " is listed"
				}
			}
			if len(listed) != len(canon) {
				return fmt.Sprintf("%d canonical names are listed, want %d", len(listed), len(canon))
			}
			return ""
		})
	}
}
