package checks

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/go-logr/logr"

	msdk "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/opus"
	"github.com/livekit/protocol/logger"

	"verif/harness/kit"
	"verif/harness/native"
)

func init() {
	kit.Register("N01", kit.Check{
		Rule: "Streams through the resampler and Opus codecs with buffers of exactly the size of the data (odd sizes, single samples, growing and shrinking writes, empty ones, " +
			"truncated packets, changes of channels), built with the address sanitizer; a preloaded library checks each region that is passed to a native call. " +
			"Distinct: (kind, rates, sizes).",
		Floor: 400,
		Run:   checkNativeMemory,
	})
}

// exact returns a copy with no spare capacity, in its own allocation.
func exact[T any](v []T) []T {
	out := make([]T, len(v))
	copy(out, v)
	return out[:len(v):len(v)]
}

func checkNativeMemory(c *kit.C) {
	m, ok := native.Asan()
	if !ok || !m.Sanitizer {
		c.T.Fatal("address sanitizer or its monitor is not loaded")
	}
	log := logger.LogRLogger(logr.Discard())
	misuse := func(what string) {
		if s := native.AsanError(); s != "" {
			c.Fail("memory: "+strings.Split(s, " (")[0], "%s: %s", what, s)
		}
	}
	resample := func(rnd *rand.Rand, src, dst int) []int {
		out := newPCMSink(dst)
		w := msdk.ResampleWriter(out, src)
		_, next := splitter(rnd, src)
		var sizes []int
		total := 0
		for k := 0; k < 1+rnd.Intn(40) && total < src; k++ {
			n := min(next(), 2*src)
			total += n
			sizes = append(sizes, n)
			if err := w.WriteSample(exact(randPCM(rnd, n))); err != nil {
				c.Fail("write", "%d -> %d, %d samples: %v", src, dst, n, err)
			}
			if rnd.Intn(10) == 0 {
				_ = w.WriteSample(nil)
			}
		}
		if err := w.Close(); err != nil {
			c.Fail("close", "%d -> %d: %v", src, dst, err)
		}
		c.Count("samples_out", len(out.all()))
		return sizes
	}
	for i := 0; i < c.N(400, 6000); i++ {
		rnd := c.Rand("resample", i)
		src, dst := ratePair(rnd)
		c.Eval("resample %d: %d -> %d", i, src, dst)
		sizes := resample(rnd, src, dst)
		misuse("stream")
		// One-shot conversion to buffers with a different spare capacity.
		pre := make(msdk.PCM16Sample, rnd.Intn(4), 4+rnd.Intn(300))
		n := []int{0, 1, 2, 3, 1 + rnd.Intn(30), rnd.Intn(3000)}[rnd.Intn(6)]
		one := msdk.Resample(pre, dst, exact(randPCM(rnd, n)), src)
		c.Count("samples_out", len(one))
		misuse("one-shot")
		c.Distinct("resample", src, dst, sizes, n, cap(pre))
		c.Sample("resample", "%d -> %d: %d writes, %d one-shot", src, dst, len(sizes), n)
	}
	// Buffers that are collected while others convert.
	for i := 0; i < c.N(6, 60); i++ {
		c.Eval("parallel %d", i)
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			rnd := c.Rand("par", i, g)
			src, dst := ratePair(rnd)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 4; k++ {
					_ = resample(rnd, src, dst)
				}
			}()
		}
		wg.Wait()
		misuse("parallel")
		c.Distinct("parallel", i)
	}
	for i := 0; i < c.N(250, 4000); i++ {
		rnd := c.Rand("opus", i)
		rate := opusRates[rnd.Intn(len(opusRates))]
		target := 1 + rnd.Intn(2)
		c.Eval("opus %d: rate %d, channels %d", i, rate, target)
		pkts := newSink[opus.Sample](rate)
		chans := 1 + rnd.Intn(2)
		enc, err := opus.Encode(pkts, chans, log)
		if err != nil {
			c.Fail("encoder", "%v", err)
			continue
		}
		var kinds []string
		for k := 0; k < 4; k++ {
			n := rate / []int{400, 200, 100, 50, 25}[rnd.Intn(5)] * chans
			if rnd.Intn(4) == 0 {
				n = rnd.Intn(n + 50) // invalid sizes
			}
			err := enc.WriteSample(exact(randPCM(rnd, n)))
			kinds = append(kinds, fmt.Sprint(n, err == nil))
		}
		_ = enc.Close()
		misuse("encode")
		out := newPCMSink(rate)
		dec, err := opus.Decode(out, target, log)
		if err != nil {
			c.Fail("decoder", "%v", err)
			continue
		}
		write := func(p []byte) {
			_ = dec.WriteSample(exact(p))
			misuse("decode")
		}
		for _, p := range pkts.snapshot() {
			data := append([]byte{}, p.copy...)
			write(data)
			switch rnd.Intn(5) {
			case 0:
				write(data[:rnd.Intn(len(data)+1)])
			case 1:
				data[0] ^= 4
				write(data)
			case 2:
				data[0] = byte(rnd.Intn(256))
				write(data)
			case 3:
				data[0] |= 3
				if len(data) > 1 {
					data[1] = byte(rnd.Intn(256))
				}
				write(data)
			case 4:
				p := make([]byte, 1+rnd.Intn(40))
				rnd.Read(p)
				write(p)
			}
		}
		_ = dec.Close()
		c.Count("samples_out", len(out.all()))
		c.Distinct("opus", rate, target, chans, kinds)
		c.Sample("opus", "rate %d, %d -> %d channels: %v", rate, chans, target, kinds)
	}
	end, _ := native.Asan()
	c.Count("regions_checked", end.Regions)
	c.Count("kilobytes_checked", end.Bytes/1024)
	c.Count("native_resample_calls", end.Resamples)
	c.Count("native_decode_calls", end.Decodes)
	c.Count("native_encode_calls", end.Encodes)
	c.Count("native_header_calls", end.TOC)
	if end.Resamples == 0 || end.Regions == 0 {
		c.T.Fatal("the monitor saw no native calls")
	}
}
