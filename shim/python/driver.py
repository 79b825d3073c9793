"""driver.py SCRIPT WORDS: plays words of operations on the functions of the target generator.

Every line of WORDS is a directory and the operations of one word; every word is played in a process of its own
(forked after the script was loaded), in that directory, where it leaves its files and the list of its outcomes ('log').
Later operations see what earlier ones did.
"""
import os, runpy, sys


def play(ns, ops):
    targets, log = {}, []
    for op in ops:
        f = op.split(",")
        name = f[1]
        try:
            if f[0] in ("dot", "checker"):
                kw = {}
                if f[4] != "-":
                    s = [float(v) for v in f[4].split(":")]
                    kw["gridSpacing"] = tuple(s) if len(s) > 1 else s[0]
                if f[5] != "-":
                    kw["invert"] = f[5] == "1"
                if f[0] == "dot" and f[6] != "-":
                    kw["dotSize"] = float(f[6])
                targets[name] = ns[f[0] + "Target"]((int(f[2]), int(f[3])), **kw)
            elif f[0] == "footer":
                targets[name].addTextFooter(*f[2:])
            elif f[0] == "save":
                targets[name].save(f[2], float(f[3]))
            log.append("done " + op)
        except Exception as e:
            log.append("refused %s %s %s" % (op, type(e).__name__, e))
    with open("log", "w") as f:
        f.write("\n".join(log) + "\n")


ns = runpy.run_path(sys.argv[1], run_name="calibration_target")
for line in open(sys.argv[2]):
    d, *ops = line.rstrip("\n").split("|")
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.chdir(d)
            play(ns, ops)
            code = 0
        finally:
            sys.stdout.flush()
            os._exit(code)
    if os.waitpid(pid, 0)[1]:
        sys.exit("word " + line)
