"""Exhaustive enumeration in Python: the counterpart of harness/explorer.h.

Every case gets a number; shard s of n decides the cases with number % n == s. The number of the case being
decided is kept in a file, so that a case that ends the process is known to the parent.
"""
import hashlib, json, os, struct, sys, traceback


class Explorer:
    def __init__(self):
        self.out, self.tier, self.shard, self.n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        self.start = int(sys.argv[5]) if len(sys.argv) > 5 else 0
        self.only = int(sys.argv[6]) if len(sys.argv) > 6 else None
        self.thorough = self.tier == "thorough"
        self.id = -1
        self.counts = {"transitions": 0, "transitions_decided": 0}
        self.states = set()
        self.violations, self.vcount, self.samples = [], {}, []
        self.fd = os.open(self.out + ".case", os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        self.what = ""

    def next(self):
        """True if the next case is ours."""
        self.id += 1
        if self.only is not None:
            if self.id != self.only:
                return False
        elif self.id % self.n != self.shard or self.id < self.start:
            return False
        self.counts["transitions"] += 1
        os.pwrite(self.fd, struct.pack("<q", self.id), 0)
        return True

    def about(self, text):
        """What the case does, for a report about a case that ends the process."""
        os.pwrite(self.fd, (text[:400] + "\0").encode(), 8)

    def decided(self, n=1):
        self.counts["transitions_decided"] += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, text):
        if isinstance(text, str):
            text = text.encode()
        self.states.add(hashlib.blake2b(text, digest_size=8).digest())

    def sample(self, text):
        k = len(self.samples)
        if k < 4 and (k == 0 or self.counts["transitions_decided"] > 97 ** k):
            self.samples.append(text() if callable(text) else text)

    def violation(self, key, detail):
        self.vcount[key] = self.vcount.get(key, 0) + 1
        if self.vcount[key] <= 3 and len(self.violations) < 4000:
            self.violations.append({"id": self.id, "key": key, "detail": detail})

    def finish(self):
        with open(self.out + ".states", "wb") as f:
            f.write(b"".join(self.states))
        with open(self.out, "w") as f:
            json.dump({"counts": self.counts, "violations": self.violations, "samples": self.samples,
                       "last": self.id, "vcount": self.vcount}, f)
