package flatjsonl

import (
	"errors"
	"fmt"
	"strings"
)

type recReceiver struct {
	fails [3]int // failing call of each kind, counted from 1
	calls [3]int
	log   []string
}

func (r *recReceiver) call(kind int, what string) error {
	r.calls[kind]++
	r.log = append(r.log, what)
	if r.fails[kind] == r.calls[kind] {
		return errors.New("failed " + what)
	}
	return nil
}

func (r *recReceiver) SetupKeys(keys []flKey) error { return r.call(0, fmt.Sprintf("setup %d", len(keys))) }
func (r *recReceiver) ReceiveRow(seq int64, v []Value) error {
	return r.call(1, fmt.Sprintf("row %d %d", seq, len(v)))
}
func (r *recReceiver) Close() error { return r.call(2, "close") }

func init() { units = append(units, unitC13) }

func unitC13(h *vh) {
	for i := 0; i < 5000 && !h.done(); i++ {
		n := h.rng.Intn(5)
		w := &Writer{}
		var rs []*recReceiver
		for j := 0; j < n; j++ {
			r := &recReceiver{}
			for k := range r.fails {
				if h.rng.Intn(3) == 0 {
					r.fails[k] = 1 + h.rng.Intn(2)
				}
			}
			rs = append(rs, r)
			w.Add(r)
		}
		desc := "receivers failing at"
		for _, r := range rs {
			desc += fmt.Sprint(" ", r.fails)
		}
		h.try(desc, false, func() string {
			var want []string
			step := func(kind int, what string, err error) string {
				want = append(want, what)
				bad := 0
				for j, r := range rs {
					if fmt.Sprintf("%q", r.log) != fmt.Sprintf("%q", want) {
						return fmt.Sprintf("receiver %d got %q, want %q", j, r.log, want)
					}
					if r.fails[kind] == r.calls[kind] {
						bad++
					}
				}
				if (err != nil) != (bad > 0) {
					return fmt.Sprintf("%s: %d receivers failed, error is %v", what, bad, err)
				}
				if err != nil && strings.Count(err.Error(), "failed "+what) < bad {
					return fmt.Sprintf("%s: %d receivers failed, error says only %v", what, bad, err)
				}
				return ""
			}
			if w.HasReceivers() != (n > 0) {
				return "HasReceivers is wrong"
			}
			if m := step(0, "setup 2", w.SetupKeys(make([]flKey, 2))); m != "" {
				return m
			}
			for s := 1; s <= 3; s++ {
				if m := step(1, fmt.Sprintf("row %d 2", s), w.ReceiveRow(int64(s), make([]Value, 2))); m != "" {
					return m
				}
			}
			return step(2, "close", w.Close())
		})
	}
}
