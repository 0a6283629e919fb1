TECH = {
 'default': 'model checking: bounded-exhaustive enumeration of inputs and operation histories executed on the real code, each compared with a reference model',
}
for _i in ('C01', 'C02'):
    TECH[_i] = 'model checking: stateless exploration of all interleavings of the real code (instrumented scratch copy) under a controlled scheduler, up to a preemption bound, with happens-before race detection'
for _i in ('C03', 'C04'):
    TECH[_i] = 'model checking: stateless exploration of the schedules of the real code (instrumented scratch copy) under a controlled scheduler, up to a delay bound, over an enumeration of inputs and configurations; every schedule compared with the serial result'

NOTES = {
 'default': 'Every case of the bounded space is executed on the real code and compared with an independent reference model written from the definition; nothing is claimed outside the bounds stated in the evidence (value alphabets, sizes, depths). Trusts the Go toolchain, gonum and the reference model.',
}
for _i in ('C01', 'C02', 'C03', 'C04'):
    NOTES[_i] = 'Every schedule within the stated preemption or delay bound of every scenario is executed on the real code, rewritten mechanically at check time so that each synchronisation and goroutine start is a scheduling point; data races are found by happens-before tracking (and the Go race detector). Goroutines started inside gonum are not controlled. Bounds and the number of schedules are in the evidence.'
NA = {}
