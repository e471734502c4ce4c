// Package vmono stands in for github.com/livekit/protocol/utils/mono.
package vmono

import (
	"time"

	rt "github.com/livekit/media-sdk/vmcrt"
)

func FromTime(t time.Time) time.Time { return t }
func Now() time.Time                 { return rt.Now() }
func UnixNano() int64                { return rt.Now().UnixNano() }
func UnixMicro() int64               { return UnixNano() / 1000 }
