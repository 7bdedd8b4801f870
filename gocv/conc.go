package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Shared describes shared state of a thread-modular proof.
type Shared struct{}

func (x *Exec) checkGuard(st *State, a *Addr, write bool)       {}
func (x *Exec) mapGuard(st *State, m ssa.Value, write bool)     {}
func (x *Exec) sharedMap(st *State, mt any, m *Term)            {}
func (x *Exec) sharedAtomic(st *State, a Val)                   {}
func (x *Exec) guarantee(st *State, f func())                   { f() }
func (x *Exec) interfere(st *State, c *Contract)                {}
func (x *Exec) lockOp(st *State, a Val, op string, p token.Pos) {}

func (x *Exec) doGo(st *State, fr *frame, in *ssa.Go, k func(*State)) {
	panic(unsup("go statement"))
}

func (x *Exec) recv(st *State, fr *frame, in *ssa.UnOp, k func(*State, Val)) {
	panic(unsup("channel receive"))
}

func (x *Exec) send(st *State, fr *frame, in *ssa.Send, k func(*State)) {
	panic(unsup("channel send"))
}

func (x *Exec) threadInit(st *State) {}
func (x *Exec) threadExit(st *State) {}
