//go:build !race

package vmcrt

const RaceMode = false

func waitThread(t *thread)   { <-t.wake }
func signalThread(t *thread) { t.wake <- struct{}{} }

func signalEnd(e *exec)  { e.endSig <- struct{}{} }
func waitEnd(e *exec)    { <-e.endSig }
func signalExit(e *exec) { e.endSig <- struct{}{} }
func waitExit(e *exec)   { <-e.endSig }

func raceAcquire(p *uint64)      {}
func raceRelease(p *uint64)      {}
func raceReleaseMerge(p *uint64) {}

func raceExit(e *exec)       {}
func raceAcquireAll(e *exec) {}
func raceLog(e *exec)        {}
func raceReadLog(e *exec)    {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func raceAtomicIn()  {}
func raceAtomicOut() {}
