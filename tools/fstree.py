"""Random directory trees, what a user can do with the paths in them (asked from the system), and snapshots."""
import hashlib
import json
import os
import socket
import stat
import subprocess
import sys

NAMES = ["a", "b.fa", "c.FA", "d.fq.gz", ".hid", ".h.fa", "x.txt", "no ext.fa", "ünï.fa", "q'uote.fa", "do\"ub.fa", "$HOME.fa",
         "new\nline.fa", "back\\slash.fa", "-dash.fa", "star*.fa", "dot.", "e.sam", "~", "tab\t.fa", "dummy.txt",
         "dummy.txt_", "n" * 251 + ".fa", "sp ", "a=b.fa", "\udc80bad\udcff.fa", "%41.fa", "{x}.fa", "fa", ".fa", "..fa"]
NOBODY = 65534


class Tree:
    """A recipe of a tree; it can be built several times."""

    def __init__(self, rng, unwritable=0.3):
        self.rng = rng
        self.steps = []       # (kind, relative path, data, mode, owner)
        self.paths = []       # relative paths of all entries
        self.dirs = ["."]
        self.kinds = {}
        r = rng.random
        names = list(NAMES)
        rng.shuffle(names)
        for _ in range(rng.randint(1, 4)):
            d = self.join(rng.choice(self.dirs), "d%d" % len(self.dirs) if r() < 0.6 or not names else names.pop())
            self.dirs.append(d)
            self.add("dir", d, None, rng.choice([0o755, 0o755, 0o700, 0o777, 0o555, 0o311, 0o444, 0, 0o1777])
                     if r() < unwritable * 2 else 0o755)
        for _ in range(rng.randint(1, 6)):
            if not names:
                break
            p = self.join(rng.choice(self.dirs), names.pop())
            if p in self.kinds:
                continue
            self.add("file", p, rng.choice(["", "content\n", "x" * 5000, "\0bin"]),
                     rng.choice([0o644, 0o644, 0o666, 0o600, 0o444, 0o200, 0, 0o777, 0o4755]))
        for i in range(rng.randint(0, 4)):
            where = rng.choice(self.dirs)
            p = self.join(where, "ln%d%s" % (i, rng.choice(["", ".fa", ".txt"])))
            k = r()
            if k < 0.5 and self.paths:
                t = rng.choice(self.paths)
            elif k < 0.6:
                t = p
            elif k < 0.8:
                t = self.join(rng.choice(self.dirs), "gone%d.fa" % i)
            elif k < 0.9:
                t = "nodir/gone.fa"
            else:
                t = rng.choice(self.dirs)
            self.add("link", p, os.path.relpath("/r/" + t, "/r/" + where), 0)
        if r() < 0.2:
            self.add("fifo", self.join(rng.choice(self.dirs), "ff.fa"), None, rng.choice([0o666, 0o600]))
        if r() < 0.1:
            self.add("sock", self.join(rng.choice(self.dirs), "s.fa"), None, 0o666)

    @staticmethod
    def join(d, n):
        return n if d == "." else d + "/" + n

    def add(self, kind, path, data, mode):
        self.steps.append((kind, path, data, mode, NOBODY if self.rng.random() < 0.5 else 0))
        self.paths.append(path)
        self.kinds[path] = kind

    def build(self, root, root_mode=0o755, root_owner=0):
        if not os.path.isdir(root):
            os.makedirs(root)
        for kind, p, data, mode, owner in self.steps:
            f = os.fsencode(root) + b"/" + p.encode("utf-8", "surrogateescape")
            if kind == "dir":
                os.mkdir(f)
            elif kind == "file":
                with open(f, "w") as h:
                    h.write(data)
            elif kind == "link":
                os.symlink(data.encode("utf-8", "surrogateescape"), f)
            elif kind == "fifo":
                os.mkfifo(f)
            elif kind == "sock":
                s = socket.socket(socket.AF_UNIX)
                cwd = os.getcwd()
                try:
                    os.chdir(os.path.dirname(f))
                    s.bind(os.path.basename(f))
                finally:
                    os.chdir(cwd)
                    s.close()
            os.lchown(f, owner, owner)
        for kind, p, data, mode, owner in reversed(self.steps):   # innermost first
            if kind != "link":
                os.chmod(os.fsencode(root) + b"/" + p.encode("utf-8", "surrogateescape"), mode)
        os.chown(root, root_owner, root_owner)
        os.chmod(root, root_mode)

    def candidates(self):
        """Relative paths worth asking about."""
        rng = self.rng
        c = self.paths * 4
        for p in self.paths:
            k = rng.random()
            c.append(p + rng.choice(["/", "/.", "/..", "/new.fa", "/x/new.fa", "//", "/../" + os.path.basename(p), "x", ".fa"]))
        for d in self.dirs:
            c.append(self.join(d, rng.choice(["new.fa", "new", ".new.fa", "new.dir/", "ne w.sam", "n" * 256, "n" * 255,
                                              "m" * 252 + ".fa", "dummy.txt", "x.fq.gz"])))
            c.append(self.join(d, "new/deep.fa"))
        c += [".", "..", "", "./new2.fa", "../nothere.fa", "/".join(["y" * 200] * 25), "./" * 2100 + "z.fa"]
        return c


def raw(path):
    """The bytes of a path, as the driver gets them (surrogates kept)."""
    return path.encode("utf-8", "surrogateescape")


def snapshot(root):
    """{path: facts} of everything below root, and root itself."""
    r = {}
    root = os.fsencode(root)

    def one(p):
        st = os.lstat(p)
        c = b""
        if stat.S_ISREG(st.st_mode):
            with open(p, "rb") as f:
                c = hashlib.sha1(f.read()).hexdigest().encode()
        elif stat.S_ISLNK(st.st_mode):
            c = os.readlink(p)
        r[os.path.relpath(p, root)] = (st.st_mode, st.st_uid, st.st_gid, st.st_ino, st.st_size if not stat.S_ISDIR(
            st.st_mode) else 0, c)
        if stat.S_ISDIR(st.st_mode):
            for n in os.listdir(p):
                one(p + b"/" + n)
    one(root)
    return r


# -- the oracle: a process of the user in question asks the system

def probe(kind, path, mode=""):
    """Does the system let this process do what the validator asks for? (accepts, reason)"""
    try:
        if kind == "infile":
            if not stat.S_ISREG(os.stat(path).st_mode):
                return False, "not a regular file"
            os.close(os.open(path, os.O_RDONLY))
            return True, ""
        if kind == "indir":
            if not stat.S_ISDIR(os.stat(path).st_mode):
                return False, "not a directory"
            os.listdir(path)
            return True, ""
        if kind == "outfile":
            try:
                st = os.stat(path)
            except FileNotFoundError:
                st = None
            if st:
                if stat.S_ISDIR(st.st_mode):
                    return False, "directory"
                if mode == "new":
                    return False, "exists"
                if not stat.S_ISREG(st.st_mode):
                    return None, "special file"
            # whether opening succeeds, as the system sees it; what is created here is removed with the copy
            os.close(os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666))
            return True, "existing" if st else "created"
        if kind == "outdir":
            try:
                st = os.stat(path)
            except FileNotFoundError:
                st = None
            if st is None:
                os.mkdir(path)
                return True, "created"
            if not stat.S_ISDIR(st.st_mode):
                return False, "not a directory"
            n = os.path.join(path, b"probe-of-the-oracle")
            os.close(os.open(n, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o666))
            os.unlink(n)
            return True, "existing"
    except OSError as e:
        return False, e.strerror
    raise ValueError(kind)


def ask(user, questions):
    """questions: list of (cwd, kind, path bytes, mode); answers in order."""
    p = subprocess.run([sys.executable, os.path.abspath(__file__), user], input=json.dumps(
        [(c, k, pa.hex(), m) for c, k, pa, m in questions]), stdout=subprocess.PIPE, universal_newlines=True, check=True,
        env={"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}, cwd="/")
    return json.loads(p.stdout)


if __name__ == "__main__":
    todo = json.load(sys.stdin)
    os.umask(0o022)
    if sys.argv[1] == "nobody":
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    ans = []
    for cwd, kind, pa, mode in todo:
        try:
            os.chdir(cwd)
        except OSError as ex:
            ans.append((None, "chdir " + str(ex)))
            continue
        ans.append(probe(kind, bytes.fromhex(pa), mode))
    json.dump(ans, sys.stdout)
