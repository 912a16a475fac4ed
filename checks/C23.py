"""C23 - temporary GDAL configuration is in force inside its scope and completely undone afterwards."""
from osgeo import gdal

from aws.osml.gdal.gdal_config import GDALConfigEnv

BOUNDS = ("every history of up to 4 (thorough 5) operations on two environments with overlapping options: enter, leave (normally or by an exception), add "
          "credentials; options set or unset beforehand; options changed by someone else between scopes; numeric option values symbolic")
OUTSIDE = "several threads; options changed directly through GDAL inside the scope"
K = ["OSMLV_ONE", "OSMLV_TWO", "OSMLV_THREE"]
AWS = {"AWS_SECRET_ACCESS_KEY": "SecretAccessKey", "AWS_ACCESS_KEY_ID": "AccessKeyId", "AWS_SESSION_TOKEN": "SessionToken"}


def snap():
    return {k: gdal.GetConfigOption(k) for k in K + list(AWS)}


def same(env, a, b):
    if a is None or b is None:
        return a is b
    return env.text_eq(a, b)


def history(env, n, pre, creds, ext=False):
    keep = snap()
    try:
        for k in K + list(AWS):
            gdal.SetConfigOption(k, None)
        if pre & 1:
            gdal.SetConfigOption(K[1], "before")
            gdal.SetConfigOption("AWS_ACCESS_KEY_ID", "id before")
        if pre & 2:
            gdal.SetConfigOption(K[0], "")
        v = env.int("v", 0, 9)
        given = {K[0]: "a", K[1]: v}
        orig = dict(given)
        envs = {"A": env.no_raise(lambda: GDALConfigEnv(given), "constructor"), "B": env.no_raise(lambda: GDALConfigEnv({K[1]: "b", K[2]: 7}), "constructor")}
        want = {"A": {K[0]: "a", K[1]: env.text(v) if env.symbolic else str(v)}, "B": {K[1]: "b", K[2]: "7"}}
        C = {"SecretAccessKey": "s3", "AccessKeyId": "i3", "SessionToken": "t3"}
        stack = []
        for i in range(n):
            ops = ["A", "B"] + (["exit", "raise"] if stack else []) + (["creds"] if creds else []) + ([] if stack or not ext else ["outside"])
            op = env.choice(f"op{i}", ops)
            if op in envs:
                old = snap()
                env.no_raise(lambda: envs[op].__enter__(), "enter")
                new = snap()
                for k in old:
                    if k in want[op]:
                        env.require(same(env, new[k], want[op][k]), "the environment's options are set inside the with statement")
                    else:
                        env.require(same(env, new[k], old[k]), "other options keep their values")
                stack.append((op, old))
            elif op == "outside":  # someone else changes the options
                for k, x in ((K[0], "a"), (K[1], "b"), ("AWS_SESSION_TOKEN", "t3")):
                    gdal.SetConfigOption(k, None if gdal.GetConfigOption(k) == x else x)
            elif op == "creds":
                r = env.no_raise(lambda: envs["A"].with_aws_credentials(dict(C)), "with_aws_credentials")
                env.require(r is envs["A"], "with_aws_credentials returns the environment")
                env.no_raise(lambda: envs["B"].with_aws_credentials(None), "with_aws_credentials without credentials")
                want["A"].update({a: C[b] for a, b in AWS.items()})
            else:
                name, old = stack.pop()
                err = (RuntimeError, RuntimeError("body"), None) if op == "raise" else (None, None, None)
                r = env.no_raise(lambda: envs[name].__exit__(*err), "exit")
                env.require(not r, "exceptions of the body are not swallowed")
                new = snap()
                for k in old:
                    env.require(same(env, new[k], old[k]), "leaving restores the options found on entry")
        while stack:
            name, old = stack.pop()
            env.no_raise(lambda: envs[name].__exit__(None, None, None), "exit")
            new = snap()
            for k in old:
                env.require(same(env, new[k], old[k]), "leaving restores the options found on entry")
        env.require(given.keys() == orig.keys() and all(given[k] is orig[k] for k in orig), "the caller's options are not changed")
    finally:
        for k, x in keep.items():
            gdal.SetConfigOption(k, x)


def cases(tier):
    n = 4 if tier == "quick" else 5
    return [dict(name=f"history-{p}-{c}", body=history, params=dict(n=n, pre=p, creds=bool(c))) for p in range(4) for c in (0, 1)] + [
        dict(name=f"history-{c}-outside", body=history, params=dict(n=n, pre=0, creds=bool(c), ext=True)) for c in (0, 1)]
