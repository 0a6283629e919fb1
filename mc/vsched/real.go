package vsched

import "sync"

type realRW = sync.RWMutex
type realWG = sync.WaitGroup
type realCond = sync.Cond

func newRealCond(l Locker) *realCond { return sync.NewCond(l) }
