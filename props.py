"""What each check runs: scenarios, fault kinds, operation bias, which violations belong to it."""


class OF:
    THROW, COPY, SRC, RELOC, REJ = 16, 32, 64, 128, 256
    GROW, SHRINK, ALIAS, HANDLE, VIEW, STREAM = 512, 1024, 2048, 4096, 8192, 16384


class ST:
    YIELD, THROW, KILL, RELOC, REJECT, COPY, SRC = 1, 2, 4, 8, 16, 32, 64
    ALLOC, SRCFAULT, GARBAGE, VIEW, OTHER = 128, 256, 512, 1024, 2048


ALL_FAULTS = 0xFFFFFFFF
SEQ = ["vec", "deq", "circ", "list", "stack", "queue", "cqueue"]
OMAPS = ["omap", "omap2", "omap3", "oset", "huge", "refmap"]
UMAPS = ["umap", "uset", "huge2", "refumap", "hashkeys"]
EVERY = SEQ + OMAPS + UMAPS + ["str", "enums", "refemap", "optref"]

PROPS = {
    # container refinement: every violation on the container counts
    "C01": dict(tus=["vec", "stack", "gvec"], runs=300000),
    "C02": dict(tus=["deq", "queue", "gdeq"], runs=300000),
    "C03": dict(tus=["circ", "cqueue", "gcirc"], runs=300000),
    "C04": dict(tus=["list", "glist"], runs=300000),
    "C05": dict(tus=["str", "gstr"], runs=400000),
    "C06": dict(tus=OMAPS + ["gomap"], runs=250000),
    "C07": dict(tus=UMAPS + ["gumap"], runs=300000),
    "C08": dict(tus=["enums", "refemap"], runs=400000),
    # cross-cutting guarantees, over all containers
    "C09": dict(tus=EVERY, runs=300000, accept=["stability"], bias=OF.HANDLE),
    "C10": dict(tus=EVERY, runs=300000, attrib=ST.REJECT, bias=OF.REJ,
                accept=["reject-missing", "spurious-reject", "wrong-reject", "reject-effect", "@after_reject"]),
    "C11": dict(tus=EVERY, runs=300000, accept=["lifetime"]),
    "C12": dict(tus=EVERY, runs=300000, attrib=ST.THROW, bias=OF.THROW,
                accept=["exc-strong", "exc-basic", "terminate", "@after_throw"]),
    "C13": dict(tus=EVERY, runs=300000, accept=["alloc", "memory"]),
    "C14": dict(tus=EVERY, runs=300000, attrib=ST.RELOC, bias=OF.RELOC | OF.VIEW, accept=["image", "@op_view"],
                restart=24000),
    "C15": dict(tus=EVERY, runs=300000, attrib=ST.YIELD | ST.KILL | ST.OTHER, accept=["isolation", "shared"],
                watch=True),
    "C16": dict(tus=EVERY, runs=300000, attrib=ST.COPY, bias=OF.COPY, accept=["@op_copy", "rvalue"]),
    "C17": dict(tus=EVERY + ["work"], runs=300000, accept=["progress", "hang"]),
    "C18": dict(tus=EVERY, runs=300000, attrib=ST.SRC, bias=OF.SRC, accept=["source", "@op_src"]),
    "C19": dict(tus=["str"], runs=400000, bias=OF.STREAM, accept=["@op_stream", "stream"]),
    "C23": dict(tus=["optref"], runs=400000),
    # element types with operators and constructors of their own; any violation on them counts
    "C25": dict(tus=["oddseq", "oddad", "oddomap", "oddumap", "oddenum", "oddref"], runs=300000),
    "C24": dict(tus=["sview"], runs=16000),
}
