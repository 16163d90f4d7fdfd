"""judge the reports of the race detector"""
import glob
import os
import re

ACCESS = re.compile(r"^(?:Previous )?(?:Atomic )?(?:atomic )?(read|write) at 0x[0-9a-f]+ by ", re.I)
FRAME = re.compile(r"^      (/\S+\.go|\S+\.s|<autogenerated>):(\d+)")


def parse(text):
    """the access stacks [(function, file, line)...] of every report"""
    out = []
    for block in text.split("==================\n"):
        if "WARNING: DATA RACE" not in block:
            continue
        stacks, cur, fn = [], None, ""
        for line in block.split("\n"):
            if ACCESS.match(line):
                cur = []
                stacks.append(cur)
            elif line.startswith("Goroutine "):
                cur = None
            elif cur is not None:
                m = FRAME.match(line)
                if m:
                    cur.append((fn, m.group(1), int(m.group(2))))
                elif line.startswith("  ") and line.strip():
                    fn = line.strip()
        out.append((block, stacks))
    return out


def harness(path):
    return os.path.basename(path).startswith("zz_verif") or "/verifkit/" in path or "/verifwire/" in path or "/verifrig/" in path or "/verifstream/" in path or "/verifsync/" in path


def judge(ctx, job, idx, repo, pattern=None):
    seen = {}
    total = ignored = 0
    for f in sorted(glob.glob(pattern or os.path.join(ctx.tmp, "race-%d.*" % idx))):
        with open(f, errors="replace") as fh:
            text = fh.read()
        for block, stacks in parse(text):
            total += 1
            firsts = []
            for s in stacks[:2]:
                own = [x for x in s if x[1].startswith(repo + "/")]
                firsts.append(own[0] if own else None)
            if len(firsts) < 2 or any(x is not None and harness(x[1]) for x in firsts) or not any(firsts):
                ignored += 1  # the monitors' own doing, or entirely inside of a library
                continue
            key = tuple(sorted((x[0], os.path.basename(x[1])) if x else ("", "") for x in firsts))
            if key not in seen:
                seen[key] = (firsts, block)
    for key, (firsts, block) in sorted(seen.items()):
        where = " and ".join("%s (%s:%d)" % (x[0].split("/")[-1], x[1][len(repo) + 1:], x[2]) if x else "a library" for x in firsts)
        ctx.violations.append(("data race between " + where, ctx.replay("seed %d\n%s" % (ctx.seed, block), "txt")))
    ctx.races = getattr(ctx, "races", [])
    ctx.races.append({"job": job.get("run"), "reports": total, "not_the_code_under_test": ignored, "distinct": len(seen)})
