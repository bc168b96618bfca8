"""What a #sparse_tensor.encoding says, against how PyTorch stores the tensor.

The map is parsed, the tensor's own index and value buffers are read the way the
levels prescribe, and the result must be the dense tensor."""
import itertools
import re

import torch


def parse(enc):
    m = re.fullmatch(r"#sparse_tensor\.encoding<\{map=\((.*?)\)->\((.*)\),posWidth=(\d+),crdWidth=(\d+)\}>", enc)
    if not m:
        raise ValueError("malformed")
    dims = m.group(1).split(",")
    lv = []
    for part in re.findall(r"(d\d+(?: (?:floordiv|mod) \d+)?):(\w+)(\([\w,]*\))?", m.group(2)):
        e = re.fullmatch(r"d(\d+)(?: (floordiv|mod) (\d+))?", part[0])
        lv.append((int(e.group(1)), e.group(2), int(e.group(3)) if e.group(3) else None, part[1], tuple(part[2].strip("()").split(",")) if part[2] else ()))
    text = ",".join(f"d{d}{f' {o} {c}' if o else ''}:{t}{'(' + ','.join(p) + ')' if p else ''}" for d, o, c, t, p in lv)
    if text != m.group(2):
        raise ValueError(f"level list {m.group(2)!r}")
    return dims, lv, int(m.group(3)), int(m.group(4))


def buffers(t):
    """(batch shape, per batch: (positions, coordinates, values)), as PyTorch stores it"""
    L = t.layout
    if L is torch.sparse_coo:
        return t._indices().dtype, (None, t._indices(), t._values())
    if L in (torch.sparse_csr, torch.sparse_bsr):
        return t.crow_indices().dtype, (t.crow_indices(), t.col_indices(), t.values())
    return t.ccol_indices().dtype, (t.ccol_indices(), t.row_indices(), t.values())


def decode(t, lv):
    _, (pos, crd, val) = buffers(t)
    nb = t.dim() - t.sparse_dim() - t.dense_dim()
    if [x[3] for x in lv[:nb]] != ["batch"] * nb or [x[0] for x in lv[:nb]] != list(range(nb)):
        raise ValueError("batch levels")
    if any(x[3] == "batch" for x in lv[nb:]):
        raise ValueError("batch levels")
    out = torch.zeros(t.shape, dtype=torch.float64)
    sizes = lambda l: (t.shape[l[0]] if l[1] is None else t.shape[l[0]] // l[2] if l[1] == "floordiv" else l[2])
    for b in itertools.product(*[range(s) for s in t.shape[:nb]]):
        rest = lv[nb:]
        if t.layout is torch.sparse_coo:
            k = t.sparse_dim()
            if rest[0][3] != "compressed" or rest[0][4] != ("nonunique",) or any(l[3] != "singleton" for l in rest[1:k]):
                raise ValueError("COO levels")
            for i, l in enumerate(rest[1:k]):
                if "soa" not in l[4] or ("nonunique" in l[4]) != (i < k - 2):
                    raise ValueError("COO levels")
            entries = [([(rest[l], int(crd[l][e])) for l in range(k)], val[e]) for e in range(crd.shape[1])]
            tail = rest[k:]
        else:
            if rest[0][3] != "dense" or rest[1][3] != "compressed" or rest[1][4]:
                raise ValueError("compressed levels")
            p, c, v = pos[b], crd[b], val[b]
            if p.numel() != sizes(rest[0]) + 1:
                raise ValueError(f"{p.numel()} positions for a level of size {sizes(rest[0])}")
            entries = []
            for i in range(sizes(rest[0])):
                for e in range(int(p[i]), int(p[i + 1])):
                    entries.append(([(rest[0], i), (rest[1], int(c[e]))], v[e]))
            tail = rest[2:]
        if any(l[3] != "dense" for l in tail):
            raise ValueError("dense levels")
        for idx, v in entries:
            flat = v.contiguous().reshape(-1).to(torch.float64)
            tsz = [sizes(l) for l in tail]
            if flat.numel() != int(torch.tensor(tsz).prod()) if tsz else flat.numel() != 1:
                raise ValueError("values per entry")
            for n, tc in enumerate(itertools.product(*[range(s) for s in tsz])):
                at = dict(enumerate(b))
                for l, x in idx + list(zip(tail, tc)):
                    if l[1] == "floordiv":
                        at[l[0]] = at.get(l[0], 0) + x * l[2]
                    elif l[1] == "mod":
                        at[l[0]] = at.get(l[0], 0) + x
                    else:
                        if l[0] in at:
                            raise ValueError(f"d{l[0]} twice")
                        at[l[0]] = x
                if sorted(at) != list(range(t.dim())):
                    raise ValueError("dimensions without a level")
                out[tuple(at[d] for d in range(t.dim()))] += flat[n]
    return out


def disagreement(t, enc):
    try:
        dims, lv, pw, cw = parse(enc)
        if dims != [f"d{i}" for i in range(t.dim())]:
            return "dimensions"
        dt, _ = buffers(t)
        if pw != torch.iinfo(dt).bits or cw != pw:
            return "index width"
        out = decode(t, lv)
    except (ValueError, IndexError) as e:
        return str(e)
    return None if torch.equal(out, t.to_dense().to(torch.float64)) else "decodes to another tensor"


def samples():
    g = torch.Generator().manual_seed(3)

    def dense(*s):
        x = torch.randint(1, 9, s, generator=g).float()
        return x * (torch.rand(s, generator=g) > 0.4)

    out = []
    for s, k in (((3, 4), 2), ((3, 4, 2), 3), ((3, 4, 2), 2), ((2, 3, 2, 3), 4), ((2, 3, 4, 2), 3)):
        out.append(dense(*s).to_sparse(k))
    i = torch.tensor([[0, 0, 1], [2, 2, 0]])
    out.append(torch.sparse_coo_tensor(i, torch.tensor([1.0, 2.0, 3.0]), (2, 3)))
    for it in (torch.int64, torch.int32):
        out.append(torch.sparse_csr_tensor(torch.tensor([0, 1, 3], dtype=it), torch.tensor([2, 0, 1], dtype=it), torch.tensor([5.0, 6.0, 7.0]), (2, 3)))
        out.append(torch.sparse_csc_tensor(torch.tensor([0, 1, 3, 3], dtype=it), torch.tensor([1, 0, 1], dtype=it), torch.tensor([5.0, 6.0, 7.0]), (2, 3)))
        v = torch.arange(18.0).reshape(3, 2, 3) + 1
        out.append(torch.sparse_bsr_tensor(torch.tensor([0, 1, 3], dtype=it), torch.tensor([2, 0, 1], dtype=it), v, (4, 9)))
        out.append(torch.sparse_bsc_tensor(torch.tensor([0, 1, 3, 3], dtype=it), torch.tensor([1, 0, 1], dtype=it), v, (4, 9)))
    # batches and dense dimensions
    for mk, comp, plain in ((torch.sparse_csr_tensor, [0, 1, 3], [2, 0, 1]), (torch.sparse_csc_tensor, [0, 1, 3, 3], [1, 0, 1])):
        out.append(mk(torch.tensor([comp, comp]), torch.tensor([plain, plain]), torch.arange(6.0).reshape(2, 3) + 1, (2, 2, 3)))
        out.append(mk(torch.tensor(comp), torch.tensor(plain), torch.arange(6.0).reshape(3, 2) + 1, (2, 3, 2)))
        out.append(mk(torch.tensor([comp, comp]), torch.tensor([plain, plain]), torch.arange(12.0).reshape(2, 3, 2) + 1, (2, 2, 3, 2)))
    for mk, comp, plain in ((torch.sparse_bsr_tensor, [0, 1, 3], [2, 0, 1]), (torch.sparse_bsc_tensor, [0, 1, 3, 3], [1, 0, 1])):
        out.append(mk(torch.tensor([comp, comp]), torch.tensor([plain, plain]), torch.arange(36.0).reshape(2, 3, 2, 3) + 1, (2, 4, 9)))
    return out
