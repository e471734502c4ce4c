//go:build race

package vmcrt

import (
	"runtime"
	"unsafe"
)

// RaceMode is set in -race builds. Hand-off spins on a plain word: no happens-before edges.
const RaceMode = true

//go:noinline
func ldTok(p *uint32) uint32 { return *p }

//go:noinline
func stTok(p *uint32, v uint32) { *p = v }

func waitThread(t *thread) {
	for ldTok(&t.tok) == 0 {
		runtime.Gosched()
	}
	stTok(&t.tok, 0)
}
func signalThread(t *thread) { stTok(&t.tok, 1) }

func signalEnd(e *exec) { stTok(&e.endTok, 1) }
func waitEnd(e *exec) {
	for ldTok(&e.endTok) == 0 {
		runtime.Gosched()
	}
	stTok(&e.endTok, 0)
}
func signalExit(e *exec) { stTok(&e.exitTok, 1) }
func waitExit(e *exec) {
	for ldTok(&e.exitTok) == 0 {
		runtime.Gosched()
	}
	stTok(&e.exitTok, 0)
}

func raceAcquire(p *uint64)      { runtime.RaceAcquire(unsafe.Pointer(p)) }
func raceRelease(p *uint64)      { runtime.RaceRelease(unsafe.Pointer(p)) }
func raceReleaseMerge(p *uint64) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

var raceAddrs struct{ exit, log, atomic uint64 }

func raceExit(e *exec)       { raceReleaseMerge(&raceAddrs.exit) }
func raceAcquireAll(e *exec) { raceAcquire(&raceAddrs.exit) }
func raceLog(e *exec)        { raceReleaseMerge(&raceAddrs.log) }
func raceReadLog(e *exec)    { raceAcquire(&raceAddrs.log) }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

func raceAtomicIn()  { raceAcquire(&raceAddrs.atomic) }
func raceAtomicOut() { raceReleaseMerge(&raceAddrs.atomic) }
