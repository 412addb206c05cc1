"""P15: preload library (harness/pre.cpp, harness/pre_client.c)."""
import os
import vlib

ASSUME = ["the preload library is compiled from the generator's output with the flags of the default build", "NaNs count as equal whatever their sign and payload",
          "expected values: inline functions compiled without preload symbols; untouched functions: libm looked up directly"]


def build_pre(ctx):
    lib = ctx.path("libvdt-preload.so")
    vlib.compile_(["g++"] + vlib.LIBFLAGS + ["-w", "-shared"] + vlib.INC + [vlib.signatures(ctx, True), "-o", lib], "preload library")
    return lib


def build_client(ctx):
    o = ctx.path("client.o")
    vlib.compile_(["gcc", "-O2", "-w", "-fno-builtin", "-c", os.path.join(vlib.H, "pre_client.c"), "-o", o], "client")
    return vlib.build(ctx, "pre.cpp", "pre", extra=[o], libs=["-lm"])


def prepare(ctx):
    vlib.signatures(ctx)
    lib, sut, exe = vlib.parallel([lambda: build_pre(ctx), lambda: vlib.build_sut(ctx), lambda: build_client(ctx)])
    cmd = ["env", "LD_BIND_NOW=1", "LD_PRELOAD=" + lib, exe, "--prop", ctx.prop, "--dict", vlib.harvest(ctx), "--seed", str(ctx.seed), "--tier", ctx.tier, "--threads", str(vlib.NPROC), "--sut", sut]
    return dict(cmd=cmd, replay=lambda path: vlib.replay_cmd(cmd, path))


def check(ctx):
    return vlib.engine_check(ctx, prepare(ctx), ASSUME)
