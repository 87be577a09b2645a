#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential trace oracle: reference extractor over squash output", "Every observed squash of thousands of random and exhaustively enumerated short layer histories agreed with an independent extractor on every path. Trusts the reference extractor and archive/tar."),
 "C02": ("online monitor of archive order plus byte-equality across runs, re-squashing and prefix groupings", "Order, uniqueness and byte equality observed on every output archive. Trusts archive/tar's reader."),
 "C03": ("fault injection into layer bytes under a crash/CPU/memory supervisor", "Every injected fault that an independent reader confirms was refused; no input crashed or hung a worker."),
 "C04": ("race detector plus model-based oracle over fs.FS calls, sequential and concurrent", "Every observed answer equals the reference tree's; no data race reported."),
 "C05": ("oracle over the layer of randomly built host directories (lstat snapshot vs. archive)", "Every entry of every generated directory was found in the layer with matching metadata and nothing else was. Trusts lstat and archive/tar's reader."),
 "C06": ("differential monitor over repeated runs on simulated hosts (clock, umask, zone, locale, paths, creation order), clamp monitor over every entry", "Every repetition was byte-identical and no entry was past the clamp. Trusts compileall and go build to be reproducible."),
 "C07": ("tamper injection into wheels against an independent RECORD verifier", "Every injected disagreement was refused and every consistent wheel installed."),
 "C08": ("reference placement oracle over installed wheel layers", "Every member of every generated wheel was found once, at the modelled place and mode."),
 "C09": ("offline checker of the installed RECORD against the layer's files", "Every RECORD agreed with independently computed hashes, sizes and paths."),
 "C10": ("execution of the generated launchers by CPython with recording stand-in modules", "Every launcher ran its declared object and passed on its result; malformed declarations were refused."),
 "C11": ("hostile wheels with layer containment monitor and host-filesystem sentinel", "No hostile member name escaped; trusts the sentinel scan of the scratch area."),
 "C24": ("offline checker over the trace of docker invocations recorded by a stand-in, under injected failures and cancellations", "Every recorded trace had one load, one action and one removal of exactly the tag, and the first failure was reported. Docker is a stand-in; tag collisions are sought by bursts only."),
 "C21": ("fault injection (inputs, outputs, tools, servers, temporary storage, system calls by strace) into the real program, with status, output, debris and input-integrity monitors", "Every injected fault made the program fail with a diagnostic or left its output exactly the fault-free one, with nothing left behind and no input changed. Tools are stand-ins."),
 "C22": ("race detector over concurrent operations on shared values, with sequential results as oracle and deep argument snapshots", "No race was reported, every concurrent result equalled the sequential one and no argument changed, over the schedules sampled."),
 "C25": ("monitor of status, streams and side effects of the real program under generated mistakes; word and width oracles over rendered help", "Every mistake was diagnosed with status 2 and no effect; every rendered help held every flag, subcommand and word. Terminals are pseudo-terminals."),
 "C26": ("CPython as judge of the bytecode, recording stand-in compiler", "Every bytecode file was accepted by CPython as current; the stand-in saw exactly the sources."),
 "C27": ("end-to-end conservation monitor: reference-extracted tree of the real program's image against the model tree of its ingredients", "Every random pipeline kept every file of its ingredients, with metadata, through production, squashing and image building, and the library read the image back the same."),
 "C12": ("differential oracle: packaging in a separate CPython judges every parse and every pair", "Every generated string and pair got PEP 440's verdict. Trusts pip's packaging 21.3 as the meaning of PEP 440; public numbers beyond 64 bits may be refused."),
 "C13": ("model of both specifier languages on packaging's version order, checked against packaging's specifiers", "Every specifier matched exactly the modelled versions. < and > follow the version order as the project's tests pin."),
 "C14": ("model selection over observed Select and SelectWheel calls, the index being served in process", "Every selection was the model's, in every tried candidate order."),
 "C15": ("offline checker over a recording index server and the real program, CPython judging URLs", "Every observed request, link, download and rejection was the model's. Loopback HTTP only; TLS is not exercised."),
 "C16": ("independent image decoder over the real program's output, against a model of base plus settings", "Every built image decoded to the base, the layers and the settings given. Trusts encoding/json, archive/tar and the image library's loader."),
 "C17": ("differential oracle over observed comparisons with stream-fault injection; file-identity monitor over rebuild histories", "Every pair and every rebuild history got the model's verdict. Trusts archive/tar's reader; go builds mostly by a recording stand-in."),
 "C18": ("differential monitor over deliveries of the same bytes, with serving pipes that detect a second read", "Every delivery gave the regular file's result; every bad input was named."),
 "C19": ("reference lookup model over ImageFS, and the real program inspecting stand-in and real Pythons through a recording docker", "Every lookup, owner and printed description was the model's, and every description installed a wheel unchanged. Docker is a stand-in; '..' in search paths is not judged."),
 "C20": ("CPython judges every observed mode, constant and configuration text", "All 65536 modes, all attribute halves and every generated text got CPython's verdict."),
 "C23": ("independent splitter and explicit tag expansion over observed parses, generations and comparisons", "Every filename, tag and build-tag pair got the model's verdict."),
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.isdir(os.path.join(root, "harness", "cmd", i.lower())):
        tech, note = T[i][0], T[i][1]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "runtime monitoring: " + tech,
            "level": T[i][2] if len(T[i]) > 2 else "exploration",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All monitors are black-box over exported APIs and the built program; /repo carries no hooks, only fix: commits."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
