package zzvh

import (
	xcore "github.com/webability-go/xcore"
	vrt "github.com/webability-go/xcore/zzvrt"
)

// The same questions while the library logs what it does.

func logged(f ...func()) {
	xcore.LOG = true
	defer func() { xcore.LOG = false }()
	f[vrt.Choose("harness", len(f))]()
}

// C31_log: with the log switched on.
func C31_log() { logged(C31_often, C31_two, C31_limited, C31_edges, C31_expire, C31_get, C31_swap) }

// C32_log: with the log switched on.
func C32_log() { logged(C32_changed, C32_lru, C32_expire, C32_percent) }

// C33_log: with the log switched on.
func C33_log() { logged(C33_validator, C33_pairs) }
