package zzvh

import (
	xcore "github.com/webability-go/xcore/v2"
	vrt "github.com/webability-go/xcore/v2/zzvrt"
)

// The same questions while the library logs what it does.

func logged(f ...func()) {
	xcore.LOG = true
	defer func() { xcore.LOG = false }()
	f[vrt.Choose("harness", len(f))]()
}

// C01_log: with the log switched on.
func C01_log() { logged(C01_often, C01_two, C01_evicting, C01_many) }

// C02_log: with the log switched on.
func C02_log() { logged(C02_limited, C02_edges, C02_many) }

// C03_log: with the log switched on.
func C03_log() { logged(C03_get, C03_limited, C03_swap, C03_many) }

// C04_log: with the log switched on.
func C04_log() { logged(C04_changed, C04_small) }

// C05_log: with the log switched on.
func C05_log() { logged(C05_small, C05_expire, C05_many, C05_percent) }

// C06_log: with the log switched on.
func C06_log() { logged(C06_validator, C06_pairs) }
