module verif/harness

go 1.25.0

require github.com/stretchr/testify v1.10.0

require (
	github.com/at-wat/ebml-go v0.17.1
	github.com/frostbyte73/core v0.1.1
	github.com/go-logr/logr v1.4.2
	github.com/gotranspile/g722 v0.0.0-20240123003956-384a1bb16a19
	github.com/jfreymuth/oggvorbis v1.0.5
	github.com/livekit/protocol v1.38.1-0.20250511053429-f8ea8179871e
	github.com/pion/interceptor v0.1.37
	github.com/pion/rtp v1.8.13
	github.com/pion/sdp/v3 v3.0.11
	github.com/pion/srtp/v3 v3.0.4
	github.com/pion/webrtc/v4 v4.0.15
	golang.org/x/exp v0.0.0-20250128182459-e0ece0dbea4c
	gopkg.in/hraban/opus.v2 v2.0.0-20230925203106-0188a62cb302
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	github.com/gammazero/deque v1.0.0 // indirect
	github.com/jfreymuth/vorbis v1.0.2 // indirect
	github.com/klauspost/cpuid/v2 v2.2.10 // indirect
	github.com/kr/pretty v0.1.0 // indirect
	github.com/pion/logging v0.2.3 // indirect
	github.com/pion/randutil v0.1.0 // indirect
	github.com/pion/rtcp v1.2.15 // indirect
	github.com/pion/transport/v3 v3.0.7 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/puzpuzpuz/xsync/v3 v3.5.1 // indirect
	github.com/zeebo/xxh3 v1.0.2 // indirect
	go.uber.org/atomic v1.11.0 // indirect
	go.uber.org/multierr v1.11.0 // indirect
	go.uber.org/zap v1.27.0 // indirect
	go.uber.org/zap/exp v0.3.0 // indirect
	golang.org/x/sys v0.32.0 // indirect
	google.golang.org/protobuf v1.36.6 // indirect
	gopkg.in/check.v1 v1.0.0-20190902080502-41f04d3bba15 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)
require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/livekit/media-sdk v0.0.0
)
replace github.com/livekit/media-sdk => /repo
