#!/usr/bin/env python3
"""Writes harness/c32_defs.hpp: context definitions of many shapes, each with the description of
the context it defines, worked out here and not by nbdl.  Run by hand; the result is committed."""
import random

ACTIONS = ["Create", "Read", "Update", "Delete"]


class Gen:
    def __init__(self, d):
        self.d, self.r, self.aps = d, random.Random(7000 + d), []

    def key(self, used):
        while True:
            k = ("S%d" if self.r.random() < 0.2 else "K%d") % self.r.randrange(1, 7)
            if k not in used:
                return k

    @staticmethod
    def ktype(k):
        return "hana::string<'s', '%s'>" % k[1] if k[0] == "S" else "K<%s>" % k[1]

    def shuffled(self, parts):
        self.r.shuffle(parts)
        return parts

    def subtree(self, depth, force):
        """a template of an access point, placed later (perhaps more than once)"""
        r = self.r
        t = {"acts": [], "store": None, "entity": None, "kids": [], "named": r.random() < 0.3}
        kind = r.random()
        if force or kind < 0.75:
            t["acts"] = r.sample(ACTIONS, r.randrange(1, 5)) if r.random() < 0.6 else list(ACTIONS)
        if r.random() < (0.75 if t["acts"] else 0.15):
            t["store"] = "spy"
        elif t["acts"] and r.random() < 0.3:
            t["store"] = "null"  # written out
        # without an entity the store stands for it, which only a value type can
        if t["acts"] and (t["store"] != "value"):
            t["entity"] = r.randrange(1, 5)
        elif r.random() < 0.5:
            t["entity"] = r.randrange(1, 5)
        if depth < 4 and r.random() < (0.55 if depth < 3 else 0.3):
            t["kids"] = [self.subtree(depth + 1, False) for _ in range(r.randrange(1, 3))]
        return t

    def place(self, t, keys, owner, used):
        """the code of the access point below keys; appends to self.aps in depth first order"""
        r = self.r
        k = self.key(used)
        used.add(k)
        path = keys + [k]
        parts = ["PathKey<%s>" % self.ktype(k)]
        ap = None
        if t["acts"] or t["store"] == "spy":
            ap = {"path": path, "owner": owner, "acts": t["acts"], "store": t["store"] or "none",
                  "entity": t["entity"] or 0, "listen": []}
            self.aps.append(ap)
        if t["named"]:
            parts.append("Name(\"n%d\"_s)" % len(self.aps))
        if t["acts"]:
            parts.append("Actions(%s)" % ", ".join(a + "()" for a in t["acts"]))
        elif r.random() < 0.2:
            parts.append("Actions()")
        if t["store"] == "spy":
            parts.append("Store<spy_tag>")
        elif t["store"] == "null":
            parts.append("Store<nbdl::null_store>")
        if t["entity"]:
            parts.append("Entity<E<%d>>" % t["entity"])
        if ap is not None and ap["store"] == "spy":
            parts.append("@LISTEN%d@" % (len(self.aps) - 1))
        mine = set()
        kids = [self.place(x, path, owner, mine) for x in t["kids"]]
        if len(kids) == 1 and r.random() < 0.6:
            parts.append(kids[0])
        elif kids:
            parts.append("AccessPoints(%s)" % ", ".join(kids))
        return "AccessPoint(%s)" % ", ".join(self.shuffled(parts))

    def build(self):
        r, d = self.r, self.d
        producers = r.choice([1, 1, 2, 2, 3, 4])
        consumers = r.choice([0, 1, 1, 2, 2, 3])
        prods, roots = [], {}
        for p in range(producers):
            parts = ["Type<prod<%d, %d>>" % (d, p)]
            name = r.random() < 0.7
            if name:
                parts.append("Name(\"p%d\"_s)" % p)
            used = set()
            n = r.randrange(1, 3) if r.random() < 0.8 else 3
            # producers share roots: the same first key may belong to several of them, with other paths below
            points = [self.place(self.subtree(1, i == 0), [], p, used) for i in range(n)]
            if len(points) == 1 and r.random() < 0.6:
                parts.append(points[0])
            else:
                parts.append("AccessPoints(%s)" % ", ".join(points))
            prods.append(("Producer(%s)" % ", ".join(self.shuffled(parts)), "p%d" % p if name else None))
        paths = [tuple(a["path"]) for a in self.aps]
        if len(set(paths)) != len(paths) or not 2 <= len(paths) <= 9:
            return None
        # every producer needs a path
        if {a["owner"] for a in self.aps} != set(range(producers)):
            return None
        cons = []
        for c in range(consumers):
            parts = ["Type<%s<%d, %d>>" % (r.choice(["cons", "cons", "both", "obs"]), d, c)]
            name = r.random() < 0.7
            if name:
                parts.append("Name(\"c%d\"_s)" % c)
            cons.append(("Consumer(%s)" % ", ".join(self.shuffled(parts)), "c%d" % c if name else None))
        # who listens to whom
        for i, a in enumerate(self.aps):
            if a["store"] == "spy" and r.random() < 0.5:
                a["listen"] = sorted(r.sample(range(len(self.aps)), min(len(self.aps), r.randrange(1, 4))))
                r.shuffle(a["listen"])
        parts = []
        parts.append(prods[0][0] if len(prods) == 1 and r.random() < 0.6 else "Producers(%s)" % ", ".join(p for p, _ in prods))
        if len(cons) == 1 and r.random() < 0.6:
            parts.append(cons[0][0])
        elif cons or r.random() < 0.5:
            parts.append("Consumers(%s)" % ", ".join(c for c, _ in cons))
        code = "Context(%s)" % ", ".join(self.shuffled(parts))
        for i, a in enumerate(self.aps):
            lp = ", ".join("Path<%s>" % ", ".join(self.ktype(k) for k in self.aps[j]["path"]) for j in a["listen"])
            code = code.replace(", @LISTEN%d@" % i, ", ListenPaths(%s)" % lp if a["listen"] else "")
            code = code.replace("@LISTEN%d@, " % i, "ListenPaths(%s), " % lp if a["listen"] else "")
            code = code.replace("@LISTEN%d@" % i, "ListenPaths(%s)" % lp)
        self.code, self.prods, self.cons = code, prods, cons
        return self

    def path_type(self, a):
        return "hana::tuple<%s>" % ", ".join(self.ktype(k) for k in a["path"])

    def emit(self):
        d, o = self.d, []
        kinds = {}
        for c, (code, _) in enumerate(self.cons):
            kinds[c] = code.split("Type<")[1].split("<")[0]
        o.append("  template <> struct definition<%d>" % d)
        o.append("  {")
        o.append("    static constexpr auto make_def()")
        o.append("    {")
        o.append("      using namespace nbdl_def;")
        o.append("      return %s;" % self.code)
        o.append("    }")
        for i, a in enumerate(self.aps):
            o.append("    using path%d = %s;" % (i, self.path_type(a)))
        o.append("    using paths_ = mpdef::list<%s>;" % ", ".join("path%d" % i for i in range(len(self.aps))))
        o.append("    using paths = mpdef::list<%s>;" % ", ".join("hana::type<path%d>" % i for i in range(len(self.aps))))
        o.append("    template <std::size_t i> using entity = boost::mp11::mp_at_c<mpdef::list<%s>, i>;" % ", ".join("E<%d>" % a["entity"] if a["entity"] else "spy_tag" for a in self.aps))
        up, down = [], []
        for i, a in enumerate(self.aps):
            e = "E<%d>" % a["entity"] if a["entity"] else "spy_tag"
            no = "nbdl::message::no_impl"
            for act in a["acts"]:
                if act == "Create":
                    keys = [self.ktype(k) for k in a["path"]]
                    cp = "path%d" % i if a["path"][-1][0] == "S" else \
                        "nbdl::message::create_path<%s, hana::tuple<%s>>" % (keys[-1], ", ".join(keys[:-1]))
                    up.append("nbdl::message::upstream_create<%s, %s, %s, %s>" % (cp, no, e, no))
                elif act == "Read":
                    up.append("nbdl::message::upstream_read<path%d, %s>" % (i, no))
                elif act == "Update":
                    up.append("nbdl::message::upstream_update<path%d, %s, %s>" % (i, no, e))
                else:
                    up.append("nbdl::message::upstream_delete<path%d, %s>" % (i, no))
            for act in a["acts"]:
                if act == "Create":
                    down.append("nbdl::message::downstream_create<path%d, %s, %s, %s>" % (i, no, e, no))
                elif act == "Read":
                    down.append("nbdl::message::downstream_read<path%d, %s, %s>" % (i, no, e))
                    down.append("nbdl::message::downstream_read<path%d, %s, nbdl::not_found>" % (i, no))
                elif act == "Update":
                    down.append("nbdl::message::downstream_update<path%d, %s, %s, %s>" % (i, no, e, no))
                else:
                    down.append("nbdl::message::downstream_delete<path%d, %s, %s>" % (i, no, no))
        o.append("    using upstream = mpdef::list<%s>;" % ", ".join(up))
        o.append("    using downstream = mpdef::list<%s>;" % ", ".join(down))
        listeners = {i: [j for j, b in enumerate(self.aps) if i in b["listen"]] for i in range(len(self.aps))}
        o.append("    static constexpr bool spied[] = {%s};" % ", ".join("true" if a["store"] == "spy" else "false" for a in self.aps))
        o.append("    static std::vector<point> points()")
        o.append("    {")
        o.append("      return {")
        for i, a in enumerate(self.aps):
            o.append("        {\"%s\", %d, %s, %d, {%s}}," % (
                "/".join(a["path"]), a["owner"], "true" if a["store"] == "spy" else "false", a["entity"],
                ", ".join(str(j) for j in listeners[i])))
        o.append("      };")
        o.append("    }")
        o.append("    static std::vector<std::string> actors() { return {%s}; }" % ", ".join(
            ["\"P%d\"" % i for i in range(len(self.prods))] +
            ["\"%s%d\"" % ({"cons": "C", "both": "B", "obs": "S"}[kinds[c]], c) for c in range(len(self.cons))]))
        o.append("    // by name, in another order than defined, one actor without an argument")
        names = [(n, "prod<%d, %d>" % (d, i)) for i, (_, n) in enumerate(self.prods)] + \
                [(n, "%s<%d, %d>" % (kinds[c], d, c)) for c, (_, n) in enumerate(self.cons)]
        order = list(range(len(names)))
        self.r.shuffle(order)
        skip = order.pop() if len(order) > 1 else -1
        o.append("    static constexpr int without_argument = %d;" % skip)
        o.append("    template <typename Tag> static auto make_named(int base)")
        o.append("    {")
        o.append("      return nbdl::make_context<Tag>(%s);" % ", ".join(
            "nbdl::actor(%s, arg<%d>{base + %d})" % ("\"%s\"_s" % names[i][0] if names[i][0] else "hana::type_c<%s>" % names[i][1], i, i)
            for i in order))
        o.append("    }")
        o.append("    template <typename Tag> static auto make_placed(int base)")
        o.append("    { return nbdl::make_unique_context<Tag>(%s); }" % ", ".join("arg<%d>{base + %d}" % (i, i) for i in range(len(names))))
        o.append("  };")
        return "\n".join(o)


out = ["// written by tools/gen_defs.py - do not edit", ""]
made, d = [], 0
seed = 0
while len(made) < 16:
    g = Gen(seed)
    g.d = len(made)
    seed += 1
    if g.build():
        made.append(g)
for g in made:
    out.append("#if DEF_GROUP == %d" % (g.d % 4))
    out.append(g.emit())
    out.append("#endif")
open(__file__.rsplit("/", 2)[0] + "/harness/c32_defs.hpp", "w").write("\n".join(out) + "\n")
print(len(made), "definitions from", seed, "shapes; access points:", [len(g.aps) for g in made])
