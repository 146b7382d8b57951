"""The environment variables of simulated processes.

Every simulated process starts from BASE, with the variables its spec ("env") sets or, with None,
removes; os.environ shows the variables of the process that runs and changes stay in it."""
import os

BASE = {"HOME": "/home/u", "USER": "u", "LOGNAME": "u", "SHELL": "/bin/bash", "PATH": "/usr/local/bin:/usr/bin:/bin",
        "TERM": "xterm-256color"}
LANG = {"utf-8": "C.UTF-8", "latin-1": "en_US.ISO-8859-1", "ascii": "C"}

# what no result may depend on; the first value of a name is the commonest
ODD = {
    "TMPDIR": ["/tmp", "/home/u/tmp", "/nonexistent", "/home/u/proj", "", "tmp"],
    "TEMP": ["/tmp", "/nonexistent"],
    "HOME": ["/", None, "/nonexistent", "/home/u/proj", ""],
    "COLUMNS": ["40", "20", "200", "0", "x"],
    "LINES": ["10"],
    "TERM": ["dumb", None, ""],
    "NO_COLOR": ["1", ""], "FORCE_COLOR": ["1", "3"], "CLICOLOR_FORCE": ["1"], "CLICOLOR": ["0"], "COLORTERM": ["truecolor"],
    "CI": ["true", "1"], "GITHUB_ACTIONS": ["true"], "PRE_COMMIT": ["1"], "VIRTUAL_ENV": ["/home/u/proj/venv"],
    "TZ": ["Pacific/Auckland", "UTC", "America/New_York", "XXX-14"],
    "XDG_CACHE_HOME": ["/home/u/.cache", "/nonexistent", "/home/u/proj"], "XDG_CONFIG_HOME": ["/home/u/.config", "/home/u/proj"],
    "DEBUG": ["1", "0"], "VERBOSE": ["1"], "QUIET": ["1"], "PAGER": ["less"], "EDITOR": ["vi"],
    "SOURCE_DATE_EPOCH": ["0", "1600000000"], "PYTHONHASHSEED": ["0", "random", "77"], "PYTHONUNBUFFERED": ["1"],
    "PYTHONDONTWRITEBYTECODE": ["1"], "PYTHONWARNINGS": ["ignore", "error"], "PYTHONDEVMODE": ["1"],
    "PWD": ["/", "/nonexistent", "/home/u"], "USER": ["root", None], "LOGNAME": ["root", None], "SHELL": ["/bin/sh"],
    "PATH": ["", None, "/nonexistent"], "LANG": [None, "C", "fr_FR.UTF-8"], "LANGUAGE": ["fr", "de:fr"],
    "LC_ALL": ["C.UTF-8", "tr_TR.UTF-8"], "LC_MESSAGES": ["fr_FR.UTF-8"], "POSIXLY_CORRECT": ["1"],
}
NAMES = sorted(ODD)


PATHS = ("TMPDIR", "HOME", "VIRTUAL_ENV", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "PWD")


def variant(r, dirs=()):
    """Some variables set, changed or removed; `dirs`: directories that such a variable may name."""
    c = r.random()
    if c < .5:
        names = r.sample(PATHS, r.randint(1, 3))
    elif c < .85:
        names = r.sample(NAMES, r.randint(1, 5))
    else:
        names = [n for n in NAMES if r.random() < .6]
    return {n: r.choice(dirs) if dirs and n in PATHS and r.random() < .75
            else ODD[n][0] if r.random() < .5 else r.choice(ODD[n]) for n in names}


def initial(spec, cwd):
    e = dict(BASE, PWD=cwd, LANG=LANG.get(spec.get("locale", "utf-8"), "C.UTF-8"))
    for n, v in spec.get("env", {}).items():
        if v is None:
            e.pop(n, None)
        else:
            e[n] = v
    return {os.fsencode(n): os.fsencode(v) for n, v in e.items()}


def current():
    return os.environ._data


def use(data):
    os.environ._data = os.environb._data = data
