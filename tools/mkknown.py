#!/usr/bin/env python3
"""Writes known_findings.json: open findings and repaired ones ("fixed")."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [
 dict(property="C17", entry="recorderh.CheckLateTrack", kind="assert",
      msg="C17: the recording file is not truncated when a track shows up late",
      what="a track announced after the other one has been recorded makes the recorder re-open and truncate the recording file (sequence: SetHasAudio, audio packet, SetHasVideo, key frame)"),
 dict(property="C24", entry="serverh.CheckTime", kind="assert",
      msg="C24: timestampUTC is a number",
      what="recordingStopped and recordingRtpStatusChanged carry timestampUTC as RFC 3339 text, README.md documents a number (events.NewRecordingStopped, NewRecordingRtpStatusChanged)"),
]
fixed = [
 ("C08", "4b917ff", "a jitter buffer whose first packet has number 0 forgot it and returned later packets out of order"),
 ("C10", "a652661", "packets older than the receive log's window corrupted the missing list"),
 ("C15", "c2b1a4c", "VP8 packets cut short crashed the recorder"),
 ("C13", "62faba6", "a frame with a sequence gap inside was written as if complete"),
 ("C13", "a584bfa", "packets of later VP8 partitions started new frames"),
 ("C13", "0a13b71", "key frames of several packets were written without the key flag"),
 ("C14", "68aff7e", "missing frames after picture ID 0 went unnoticed"),
 ("C19", "acf3dcd", "no further key frame was requested while waiting for one"),
 ("C16", "1d09e2f", "the first video frame was not written at time 0 when packets preceded it"),
 ("C17", "22abecb", "with a late audio track every video frame truncated the recording again"),
 ("C15", "60e8735", "the recorder crashed when the file could not be opened, written or closed"),
 ("C17", "1f33e7f", "with the builtin sampler dimensions came from another frame and the IVF copy missed frames"),
 ("C18", "91f97c8", "frames overwrote the IVF header"),
 ("C23", "21bb5e7", "/dev/null.ivf was created when there was no recording file"),
 ("C23", "154e8dc", "the IVF copy ignored the configured file mode"),
 ("C15", "730df67", "a gap that empties the sample buffer crashed the recorder"),
 ("C05", "c112994", "file names with '..' created directories and files outside of the recording directory"),
 ("C01", "f347cf2", "messages that are no events, and events of the wrong type, crashed the recorder"),
 ("C02", "b44adee", "the WebRTC setters had no effect, so that every mediasoup start failed or crashed"),
 ("C03", "f622b2f", "a failed start left its session, peer connection and gauge count behind"),
 ("C04", "f622b2f", "a session could end several times, and late events ended newer sessions of the same id"),
 ("C06", "331ebd6", "two sessions could record to the same file"),
 ("C20", "db59d62", "requests without an adapter were accepted without an SDP"),
 ("C24", "696e62e", "recordings stopped at position 0 reported no position"),
 ("C22", "0ce56b6", "the recorder was told of one skipped packet at most, and never of number 0"),
 ("C12", "d41dc18", "lost packets were no longer given up after the sequence numbers wrapped"),
 ("C12", "27fc897", "a packet that reuses the number of a packet re-requested before was not re-requested"),
 ("C21", "7d166f5", "the flow of a track that starts with sequence number 0 was reported late or never"),
 ("C28", "55ad82e", "the goroutines of a track shared the jitter buffer's and NACK state without synchronisation"),
 ("C28", "7a5ceb8", "the recorder's key frame and track state was accessed without synchronisation"),
 ("C27", "9a72df0", "LiveKit media could reach the recorder before it knew which kinds of media are present"),
 ("C28", "7d15b16", "a second LiveKit video track could deadlock with the recorder"),
 ("C31", "136caed", "only the first period of a LiveKit track was watched, with unsynchronised state"),
 ("C31", "8db80c3", "flow reports of LiveKit recordings carried no position"),
 ("C15", "8553897", "LiveKit packets that the jitter buffer drops crashed the recorder"),
 ("C31", "8106b55", "a LiveKit track that ended was still reported as flowing"),
 ("C02", "3d305bd", "flow reports of a recording could be published before its start was answered, or after a failed start"),
 ("C29", "93a5042", "responses for other sessions and colliding ids crashed the HTTP endpoint or reached the wrong requester, failed responses never did"),
 ("C30", "f7dfffb", "a configuration source that gives one Redis option reset the others"),
 ("C30", "afb431a", "the credentials of ICE servers were dropped"),
 ("C33", "c6d045a", "a negative index with --dump crashed the program"),
 ("C33", "230688e", "the LiveKit settings could not be printed under their names"),
 ("C30", "d86cb75", "commands read the configuration while it was being reloaded"),
 ("C16", "b1533b8", "audio-only recordings reported position 0 when they stopped"),
]
for p, c, w in fixed:
    out.append(dict(property=p, fixed=f"fixed: property={p} {c} {w}", what=w))
json.dump(out, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
open(os.path.join(H, "known_findings.json"), "a").write("\n")
