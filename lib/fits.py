"""Minimal FITS writer/reader (pure Python + struct): 2-D images in the primary HDU."""
import struct

def _card(k, v=None, c=""):
    if v is None:
        s = "%-80s" % k
    else:
        if isinstance(v, bool):
            val = "%20s" % ("T" if v else "F")
        elif isinstance(v, int):
            val = "%20d" % v
        else:
            val = str(v)
        s = "%-8s= %s" % (k, val)
        if c:
            s += " / " + c
        s = "%-80s" % s
    return s[:80].encode()

def write(path, rows, bitpix=-64):
    """rows: list of rows, row 0 = y=1 (bottom)."""
    ny, nx = len(rows), len(rows[0])
    hdr = [_card("SIMPLE", True), _card("BITPIX", bitpix), _card("NAXIS", 2),
           _card("NAXIS1", nx), _card("NAXIS2", ny), _card("END")]
    h = b"".join(hdr)
    h += b" " * (-len(h) % 2880)
    fmt = {-64: "d", -32: "f", 16: "h", 32: "i"}[bitpix]
    flat = [x for r in rows for x in r]
    if bitpix > 0:
        flat = [int(x) for x in flat]
    d = struct.pack(">%d%s" % (len(flat), fmt), *flat)
    d += b"\0" * (-len(d) % 2880)
    with open(path, "wb") as f:
        f.write(h + d)

def write_cube(path, nx, ny, nz):
    hdr = [_card("SIMPLE", True), _card("BITPIX", -32), _card("NAXIS", 3), _card("NAXIS1", nx),
           _card("NAXIS2", ny), _card("NAXIS3", nz), _card("END")]
    h = b"".join(hdr); h += b" " * (-len(h) % 2880)
    d = struct.pack(">%df" % (nx*ny*nz), *([1.0]*(nx*ny*nz)))
    d += b"\0" * (-len(d) % 2880)
    open(path, "wb").write(h + d)

def read(path):
    """returns (rows, cards)"""
    with open(path, "rb") as f:
        b = f.read()
    pos = 0; cards = {}; comments = []
    while True:
        c = b[pos:pos+80].decode("latin1"); pos += 80
        if c.startswith("END") and c[3:].strip() == "":
            break
        if pos > len(b):
            raise IOError("bad FITS " + path)
        k = c[:8].strip()
        if c[8:10] == "= ":
            v = c[10:].split("/")[0].strip()
            cards[k] = v
        elif k == "COMMENT":
            comments.append(c[8:].rstrip())
    pos += -pos % 2880
    nx, ny = int(cards["NAXIS1"]), int(cards["NAXIS2"])
    bp = int(cards["BITPIX"])
    fmt, sz = {-64: ("d", 8), -32: ("f", 4), 16: ("h", 2), 32: ("i", 4)}[bp]
    flat = struct.unpack(">%d%s" % (nx*ny, fmt), b[pos:pos+nx*ny*sz])
    return [list(flat[i*nx:(i+1)*nx]) for i in range(ny)], {"cards": cards, "comments": comments}


def _hdu(i, kind, w, h, pix):
    c = [_card("SIMPLE", True)] if i == 0 else [_card("XTENSION", "'BINTABLE'" if kind == "table" else "'IMAGE   '")]
    d = b""
    if kind == "null":
        c += [_card("BITPIX", 8), _card("NAXIS", 0)]
    elif kind == "table":
        c += [_card("BITPIX", 8), _card("NAXIS", 2), _card("NAXIS1", 8), _card("NAXIS2", h)]
        d = struct.pack(">%dd" % h, *[1.0] * h)
    else:
        dims = {"line": [w], "cube": [w, h, 2]}.get(kind, [w, h])
        n = 1
        for x in dims:
            n *= x
        c += [_card("BITPIX", -64), _card("NAXIS", len(dims))] + [_card("NAXIS%d" % (k + 1), v) for k, v in enumerate(dims)]
        f = [float(v) for r in pix for v in r] if kind == "image" else [1.0] * n
        d = struct.pack(">%dd" % n, *f)
    if i == 0:
        c += [_card("EXTEND", True)]
    else:
        c += [_card("PCOUNT", 0), _card("GCOUNT", 1)]
        if kind == "table":
            c += [_card("TFIELDS", 1), _card("TFORM1", "'1D      '"), _card("TTYPE1", "'A       '")]
    c += [_card("END")]
    hd = b"".join(c)
    return hd + b" " * (-len(hd) % 2880) + d + b"\0" * (-len(d) % 2880)


def write_hdus(path, hdus, pix):
    """hdus: [{kind, w, h}]; pix(hdu number from 1, x, y) gives the pixels of the 2-D images.  gzip'd if path ends in .gz"""
    import gzip
    b = b"".join(_hdu(i, q["kind"], q["w"], q["h"], [[pix(i + 1, x + 1, y + 1) for x in range(q["w"])] for y in range(q["h"])])
                 for i, q in enumerate(hdus))
    with (gzip.open if path.endswith(".gz") else open)(path, "wb") as f:
        f.write(b)
