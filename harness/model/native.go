//go:build go1.21

package model

import (
	"sync"

	"github.com/exascience/pargo/zz_verif/vs"
)

var closeMu sync.Mutex

// closeOnce closes ch unless it is closed (an intrinsic of the executor).
func closeOnce(ch chan struct{}) {
	vs.Op("close")
	closeMu.Lock()
	defer closeMu.Unlock()
	select {
	case <-ch:
	default:
		close(ch)
	}
}

// isClosed tells whether ch is closed (an intrinsic of the executor).
func isClosed(ch chan struct{}) bool {
	vs.Op("select")
	select {
	case <-ch:
		return true
	default:
		return false
	}
}
