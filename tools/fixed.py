#!/usr/bin/env python3
"""Writes known_findings.json. Fixed entries suppress nothing: they are a record."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("F05", "cc3145b", "downmix of large samples of the same sign overflows int16: (32767, 32767) becomes -1"),
    ("C04", "9a78bdb", "lookup of a codec by payload type 255 panics (index out of range)"),
    ("S01", "bdf6b8c", "payload types above 255 in SDP are truncated and alias other codecs"),
    ("S04", "e7a326d", "SDP crypto attribute with a short key panics or gives a wrong key and salt"),
    ("S04", "9e35c72", "8 byte long MKI in SDP is rejected"),
    ("S01", "893cf77", "SDP connection line without an address panics"),
    ("J02", "1fbf820", "reused jitter buffer packets keep the discontinuity flag: later frames are held until the deadline"),
    ("J01", "81679b8", "duplicates of packets in the jitter buffer are delivered twice or split frames"),
    ("J02", "64d16dd", "incomplete frame at the head of the jitter buffer isn't dropped at its deadline"),
    ("T04", "bbd6c12", "session read stream reorders packets, corrupts the reader's buffers after Close and deadlocks"),
    ("T05", "ea29482", "header extensions of SRTP packets are overwritten by the payload"),
    ("T06", "d2752e4", "jitter handler retains header extensions, CSRCs and payload of the caller's buffer"),
    ("D01", "163d7ed", "DTMF writer panics without an events stream"),
    ("T07", "1d72d67", "listening with a config on an IPv6 address fails"),
    ("X01", "47f4d75", "String of the mux and the mixer races with registrations and inputs"),
    ("M04", "50a887d", "mixer goroutine stays blocked on the output channel after Stop"),
    ("R03", "69016b9", "error of the native resampler is freed, but it's a static string: crash"),
    ("R01", "b60b018", "resampler drops input which doesn't fit into one output buffer, and the tail on close"),
    ("C03", "82627b4", "Opus packets longer than 20 ms fail to decode"),
    ("W01", "8f9896c", "WebM timestamps drift when the frame duration isn't a whole number of milliseconds"),
    ("S02", "b8b97d2", "IPv6 addresses are announced as IP4 in SDP"),
    ("C02", "4c9bd74", "G.722 encoder panics on odd number of samples, or loses them"),
    ("J02", "a31428c", "packet that comes before the first expected one is delivered without waiting for those missing before it"),
    ("J01", "d79e4cb", "media packets with padding are dropped as padding"),
    ("J02", "67d17e4", "padding packets in the middle stall the jitter buffer until the deadline"),
    ("T05", "ab77e6e", "SRTP session Close deadlocks if a stream isn't accepted, and leaves readers of its streams blocked"),
    ("T05", "b87e4e4", "authenticated, but malformed packet ends the SRTP read stream with an error"),
    ("W01", "8cd7f48", "errors of the file crash the process (panic in a background goroutine of the block writer)"),
    ("D02", "e0923de", "unsupported DTMF digits are encoded as digit 0"),
    ("S03", "d554710", "telephone-event in other letter case isn't recognized, unlike codecs"),
    ("S04", "7425d46", "crypto attribute with an MKI and no lifetime fails the whole SDP"),
    ("S03", "f28bbcd", "DTMF is negotiated even when its codec is disabled"),
    ("P01", "0668aba", "frames accumulate without bound in FullFrames while its destination keeps failing"),
    ("R01", "273d02e", "20 ms frames are resampled to frames of another duration, e.g. 30 ms for 24 to 16 kHz: RTP timestamps drift"),
    ("F06", "35e8584", "packets recorded by rtp.Buffer share CSRCs and extensions with the header of the caller"),
    ("T04", "1b9a8e8", "AcceptStream on a closed session panics (nil map) when its connection still returns a received packet"),
    ("T02", "982c096", "timestamps of a stream stop when they wrap around (after 25 hours at 48 kHz)"),
    ("W01", "ac0b2c0", "a write after Close blocks forever, and a second Close panics"),
    ("T04", "ad300b0", "packets queued before Close of the session are lost at random, or read after the stream returned EOF"),
    ("R01", "39fddcb", "errors of the destination for the last frames, which are written by Close of a resampler, are lost"),
    ("T05", "3c20c84", "SRTP streams can't be read with buffers which only have space for the payload (short buffer error ends the stream)"),
    ("J04", "2437d89", "timers deliver more packets after the buffer is closed, to the next handler that is closed too"),
    ("S04", "6f05484", "a crypto attribute with session parameters or several keys rejects the whole description, although the others are usable"),
    ("T02", "c8b7702", "a timestamp of zero after a wrap-around is taken for an unset one: other streams go back behind it"),
]
FINDINGS = []
json.dump({"findings": FINDINGS, "fixed": ["fixed: property=%s %s %s" % x for x in FIXED]}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "known_findings.json"), "a").write("\n")
