package main

// about describes a check in the evidence file.
func about(prop string) M {
	real := []string{
		"l7mp/dcontroller pkg/* (built from /repo's working tree, preemption points added by the build overlay)",
		"controller-runtime v0.22 managers, controllers, work queues and informers",
		"client-go reflectors, informers and REST clients", "Go runtime (one thread) under a seeded scheduler and virtual clock",
	}
	stub := []string{
		"kube-apiserver and etcd: in-process model behind client-go's HTTP transport (pkg sim/apiserver.go)",
		"network: latency, loss and partitions are decided by the same model",
		"wall clock and timers: the Go runtime's virtual time",
		"users: seeded histories of operations",
	}
	ass := []string{
		"the simulated API server behaves like a kube-apiserver for the requests the operators issue (resource versions, conflicts, merge patches, status sub-resource, watches, 410 expiry)",
		"goroutines are interleaved at every statement of the repository's packages (function entries in pkg/dbsp and pkg/expression) and at every blocking operation, on one processor: reorderings of unsynchronised memory accesses below that granularity are out of reach",
	}
	if a, ok := abouts[prop]; ok {
		stub = append(stub, a.stub...)
		ass = append(ass, a.ass...)
		if a.real != nil {
			real = a.real
		}
	}
	return M{"real": real, "stub": stub, "assumptions": ass}
}

type aboutT struct{ real, stub, ass []string }

var abouts = map[string]aboutT{}
