"""P34: device paths are decoded node by node without loss."""
import base64
import json
import struct
import sys
import uuid

from vh import Check, mute_logging

mute_logging()
from edk2toollib.uefi import device_path as D

ck = Check("P34", ["edk2toollib/uefi/device_path.py"], rule="a case is one device path, or one damaged path; distinct by its bytes; non-trivial when it has several nodes",
           min_events={"path": 500, "node": 2000, "unknown_type": 150, "unimplemented": 150, "damaged": 800, "refused": 500, "ipv4_static_set": 40, "text": 2000, "registered": 2000})
# UEFI 2.10, 10.3
TYPES = {1: "hardware", 2: "acpi", 3: "messaging", 4: "media", 5: "bios boot", 0x7F: "end"}
SUBS = {(1, 1): "pci", (1, 2): "pccard", (1, 3): "memory", (1, 4): "vendor", (1, 5): "controller", (1, 6): "bmc", (2, 1): "hid", (2, 2): "extended", (3, 1): "atapi", (3, 2): "scsi", (3, 3): "fibre", (3, 4): "1394",
        (3, 5): "usb", (3, 6): "i2o", (3, 9): "infiniband", (3, 10): "vendor", (3, 11): "mac", (3, 12): "ipv4", (3, 13): "ipv6", (3, 14): "uart", (3, 15): "usb class", (3, 16): "wwid", (3, 17): "logical unit",
        (3, 18): "sata", (3, 19): "iscsi", (3, 20): "vlan", (3, 21): "fibre", (3, 22): "sas", (3, 23): "nvme", (3, 24): "uri", (3, 25): "ufs", (3, 26): "sd", (3, 27): "bluetooth", (3, 28): "wifi", (3, 29): "emmc",
        (3, 30): "bluetooth", (3, 31): "dns", (4, 1): "hard", (4, 2): "cd", (4, 3): "vendor", (4, 4): "file", (4, 5): "protocol", (4, 6): "file", (4, 7): "volume", (4, 8): "offset", (5, 1): "bios"}


def ip(b):
    return ".".join(str(x) for x in b)


def gen_node(rng):
    """(type, subtype, data, class, {attribute: value}, {json key: value})"""
    k = rng.choice(["pci", "pccard", "acpi", "usb", "mac", "ipv4", "sata", "nvme", "hd", "file", "fv", "fvfile", "range", "end", "unimpl", "unimpl", "unknown"])
    r8, r16, r32, r64 = (lambda n: (lambda: rng.choice([0, 1, (1 << n) - 1, 1 << (n - 1), rng.getrandbits(n)])))(8), *[(lambda n: (lambda: rng.choice([0, 1, (1 << n) - 1, 1 << (n - 1), rng.getrandbits(n)])))(n) for n in (16, 32, 64)]
    if k == "pci":
        a, b = r8(), r8()
        return 1, 1, bytes([a, b]), D.PciDevicePath, dict(function=a, device=b), dict(Function=a, Device=b)
    if k == "pccard":
        a = r8()
        return 1, 2, bytes([a]), D.PccardDevicePath, dict(function_number=a), dict(FunctionNumber=a)
    if k == "acpi":
        a, b = r32(), r32()
        return 2, 1, struct.pack("<II", a, b), D.AcpiHidDevicePath, dict(hid=a, uid=b), dict(HID="%X" % a, UID="%X" % b)
    if k == "usb":
        a, b = r8(), r8()
        return 3, 5, bytes([a, b]), D.UsbDevicePath, dict(parent_port_number=a, interface_number=b), dict(ParentPortNumber=a, InterfaceNumber=b)
    if k == "mac":
        m, t = rng.randbytes(6) + bytes(26) if rng.random() < 0.5 else rng.randbytes(32), r8()
        return 3, 11, m + bytes([t]), D.MacAddrDevicePath, dict(mac=list(m), if_type=t), dict(Addr=":".join("%02X" % x for x in m), IfType=t)
    if k == "ipv4":
        l, r, g, s = (rng.randbytes(4) for _ in range(4))
        p, q, t, st = r16(), r16(), r16(), rng.randrange(2)
        return 3, 12, l + r + struct.pack("<HHHB", p, q, t, st) + g + s, D.Ipv4DevicePath, dict(local=list(l), remote=list(r), local_port=p, remote_port=q, protocol=t, static=bool(st), gateway=list(g), mask=list(s)), dict(
            LocalIpAddress=ip(l), RemoteIpAddress=ip(r), LocalPort=p, RemotePort=q, Protocol=t, GatewayIpAddress=ip(g), SubnetMask=ip(s))
    if k == "sata":
        a, b, x = r16(), r16(), r16()
        return 3, 18, struct.pack("<HHH", a, b, x), D.SataDevicePath, dict(hba_port_number=a, port_multiplier_port_number=b, lun=x), dict(HBAPortNumber=a, PortMultiplierPortNumber=b, Lun=x)
    if k == "nvme":
        if rng.random() < 0.5:
            d = struct.pack("<I", r32()) + rng.randbytes(8)
            return 3, 23, d, D.NvmeOfNamespaceDevicePath, dict(namespace_id_type=d[0], namespace_id=d[1:], subsystem_nqn=""), dict(NamespaceIdType=d[0], NamespaceId=d[1:].hex().upper())
        t, i, n = r8(), rng.randbytes(16), rng.choice(["nqn.2014-08.org.nvmexpress:uuid:1", "nqn.é", "x"])
        return 3, 23, bytes([t]) + i + n.encode() + b"\0", D.NvmeOfNamespaceDevicePath, dict(namespace_id_type=t, namespace_id=i, subsystem_nqn=n), dict(NamespaceIdType=t, NamespaceId=i.hex().upper(), SubsystemNqn=n)
    if k == "hd":
        n, s, z, g, m, t = r32(), r64(), r64(), rng.randbytes(16), rng.randrange(3), rng.randrange(3)
        return 4, 1, struct.pack("<IQQ16sBB", n, s, z, g, m, t), D.HardDriveDevicePath, dict(partition_number=n, partition_start=s, partition_size=z, signature=g, MBR_type=m, signature_type=t), dict(
            PartitionNumber=n, PartitionStart=s, PartitionSize=z, Signature=g.hex().upper(), MBRType=m, SignatureType=t)
    if k == "file":
        n = rng.choice(["\\EFI\\BOOT\\BOOTX64.EFI", "a", "\uFEFFx", "é漢\U0001F511", "\"quoted\" \\ back", "".join(rng.choice("abÀ\u0100\uFFFE \\") for _ in range(rng.choice([1, 5, 130])))])
        return 4, 4, (n + "\0").encode("utf-16-le"), D.FilepathDevicePath, dict(path_name=n), dict(PathName=n)
    if k in ("fv", "fvfile"):
        g = uuid.UUID(int=rng.getrandbits(128))
        return (4, 7, g.bytes_le, D.FwVolPathDevicePath, dict(fv_name=g), dict(FvName=str(g).upper())) if k == "fv" else (4, 6, g.bytes_le, D.MediaFwVolFilePathDevicePath, dict(fv_file_name=g), dict(FvFileName=str(g).upper()))
    if k == "range":
        z, a, b = rng.choice([0, r32()]), r64(), r64()
        return 4, 8, struct.pack("<IQQ", z, a, b), D.MediaRelativeOffsetRangeDevicePath, dict(reserved=z, starting_offset=a, ending_offset=b), dict(Reserved=z, StartingOffset=a, EndingOffset=b)
    if k == "end":
        return 0x7F, rng.choice([0xFF, 0xFF, 1]), rng.choice([b"", b"", b"", rng.randbytes(rng.randrange(1, 6))]), D.EndOfHardwareDevicePath, {}, {}
    d = rng.choice([b"", rng.randbytes(rng.randrange(40)), rng.randbytes(300), rng.randbytes(0x8000) if rng.random() < 0.1 else b"\x7f\xff\x04\x00"])
    if k == "unimpl":
        t, s = rng.choice([(1, 3), (1, 4), (1, 5), (1, 6), (1, rng.randrange(7, 256)), (2, 2), (2, rng.randrange(3, 256)), (3, rng.choice([1, 2, 3, 4, 6, 9, 10, 13, 14, 15, 16, 17, 19, 20, 21, 22] + list(range(24, 0x40)))),
                           (4, rng.choice([2, 3, 5, 9, 200])), (5, rng.choice([1, 2, 255]))])
    else:
        t, s = rng.choice([0, 6, 7, 0x20, 0x7E, 0x80, 0xFF]), r8()
    return t, s, d, D.UnimplementedDevicePath, dict(dev_data=d), dict(data=base64.b64encode(d).decode())


def enc(n):
    return struct.pack("<BBH", n[0], n[1], 4 + len(n[2])) + n[2]


def leaves(x, out):
    for k, v in x.items():
        if isinstance(v, dict):
            leaves(v, out)
        else:
            out[k] = v
    return out


GET = {"mac": lambda o: list(o.mac_address.addr), "if_type": lambda o: o.if_type[0] if isinstance(o.if_type, tuple) else o.if_type, "local": lambda o: list(o.local_ip_address.addr),
       "remote": lambda o: list(o.remote_ip_address.addr), "gateway": lambda o: list(o.gateway_ip_address.addr), "mask": lambda o: list(o.subnet_mask.addr), "static": lambda o: bool(o.static_ip_address),
       "dev_data": lambda o: bytes(o.dev_data), "signature": lambda o: bytes(o.signature), "namespace_id": lambda o: bytes(o.namespace_id)}


def compare(c, o, n, text=True):
    t, s, d, cls, attrs, js = n
    c.event("node")
    if not c.expect(isinstance(o, cls), "node:class", type=t, subtype=s, got=type(o).__name__, wanted=cls.__name__):
        return
    c.equal((o.dev_type, o.dev_subtype, o.dev_length, bytes(o.dev_data)), (t, s, 4 + len(d), d), "node:header")
    c.event("unknown_type", int(t not in TYPES))
    c.event("unimplemented", int(cls is D.UnimplementedDevicePath and t in TYPES))
    for k, v in attrs.items():
        got = GET.get(k, lambda o: getattr(o, k))(o)
        if k == "static" and not v:
            c.expect(got is False, "ipv4:static-flag-of-zero-byte", data=d.hex())
        else:
            c.equal(got, v, f"field:{cls.__name__}:{k}", data=d[:80].hex())
            c.event("ipv4_static_set", int(k == "static"))
    if (t, s) == (3, 23) and len(d) == 12:
        ns = next((getattr(o, a) for a in dir(o) if a.lower().replace("_", "") == "namespaceid"), None)
        c.expect(ns in (struct.unpack_from("<I", d)[0], d[:4]), "nvme:namespace-node-read-as-nvme-of", data=d.hex())
    if text:
        x = c.must("text", lambda: json.loads(str(o)))
        l = leaves(x, {})
        c.equal(l.get("length"), 4 + len(d), "text:length")
        if t in TYPES:
            c.expect(TYPES[t] in str(l.get("type")).lower(), "text:type", text=l, type=t)
        if (t, s) in SUBS:
            c.expect(SUBS[t, s].replace(" ", "") in str(l.get("subtype")).lower().replace("-", "").replace(" ", ""), "text:subtype", text=l, subtype=(t, s))
        for k, v in js.items():
            g = l.get(k)
            g = g[0] if isinstance(g, list) and len(g) == 1 else g
            c.equal(g, v, f"text:{cls.__name__}:{k}", text=str(l)[:400])
        if "static" in attrs and attrs["static"]:
            c.equal(l.get("StaticIpAddress"), True, "text:static")
        c.event("text")


@ck.family("paths", 1500, 20000)
def paths(c):
    """Device paths of several nodes of every kind."""
    rng = c.rng
    ns = [gen_node(rng) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
    raw = b"".join(enc(n) for n in ns)
    c.key(raw, nontrivial=len(ns) > 1)
    got = c.must("path:decode", D.DevicePathFactory.from_binary, raw)
    if c.equal(len(got), len(ns), "path:nodes", raw=raw[:300].hex()):
        for o, n in zip(got, ns):
            compare(c, o, n)
    c.event("path")


IMPLEMENTED = {(1, 1), (1, 2), (2, 1), (3, 5), (3, 11), (3, 12), (3, 18), (3, 23), (4, 1), (4, 4), (4, 6), (4, 7), (4, 8)}


@ck.family("registry", 2304, 65536)
def registry(c):
    """Every type with every subtype: a kind the library does not decode is kept with its data and named by its type and subtype."""
    rng = c.rng
    t, s = ([1, 2, 3, 4, 5, 0x7F, 0, 6, 0xFF][c.index // 256 % 9], c.index % 256) if ck.tier == "quick" else (c.index // 256 % 256, c.index % 256)
    d = rng.randbytes(rng.choice([0, 1, 2, 8, 40, 41]))
    c.key(bytes([t, s]))
    n = (t, s, d, D.EndOfHardwareDevicePath, {}, {}) if t == 0x7F else (t, s, d, D.UnimplementedDevicePath, dict(dev_data=d), dict(data=base64.b64encode(d).decode()))
    end = (0x7F, 0xFF, b"", D.EndOfHardwareDevicePath, {}, {})
    if (t, s) in IMPLEMENTED:
        return
    got = c.must("registry:decode", D.DevicePathFactory.from_binary, enc(n) + enc(end))
    if c.equal(len(got), 2, "registry:nodes", type=t, subtype=s):
        compare(c, got[0], n)
        compare(c, got[1], end)
    c.event("registered")


NEED = {(1, 1): 2, (1, 2): 1, (2, 1): 8, (3, 5): 2, (3, 11): 33, (3, 12): 23, (3, 18): 6, (4, 1): 38, (4, 6): 16, (4, 7): 16, (4, 8): 20}
SOFT = {(3, 12): 14}  # nodes of earlier specifications end before the gateway


def strict(b):
    """Headers when the nodes tile the buffer, False when not, None when only a field's text is unusual."""
    out, soft = [], False
    while b:
        if len(b) < 4:
            return False
        t, s, n = struct.unpack_from("<BBH", b)
        if n < 4 or n > len(b):
            return False
        d = b[4:n]
        need = NEED.get((t, s), 0)
        if len(d) < SOFT.get((t, s), need):
            return False
        if len(d) < need or (t, s) in ((3, 23), (4, 4)) or ((t, s) == (4, 1) and len(d) != 38):
            soft = True
        out.append((t, s, d))
        b = b[n:]
    return None if soft else out


@ck.family("damaged", 1000, 50000)
def damaged(c):
    """Cut paths, changed node lengths and types: refused, or every node kept."""
    rng = c.rng
    ns = [gen_node(rng) for _ in range(rng.choice([1, 2, 3]))]
    ns = [n for n in ns if len(n[2]) < 1000] or [gen_node(rng) for _ in range(1)]
    raw = bytearray(b"".join(enc(n) for n in ns))
    offs = [sum(len(enc(m)) for m in ns[:i]) for i in range(len(ns))]
    p = rng.choice(offs)
    k = rng.choice(["cut", "cut", "length", "length", "length", "short", "type", "extend"])
    if k == "cut":
        raw = raw[:rng.randrange(len(raw))]
    elif k == "length":
        v = struct.unpack_from("<H", raw, p + 2)[0]
        struct.pack_into("<H", raw, p + 2, rng.choice([0, 0, 1, 2, 3, 4, v - 1, v + 1, v + 4, 0x7FFF, 0x8000, 0xFFFF, len(raw) - p, len(raw) - p + 1]) & 0xFFFF)
    elif k == "short":
        n = rng.choice(ns)
        d = n[2][:rng.randrange(len(n[2]))] if n[2] else b""
        raw = bytearray(struct.pack("<BBH", n[0], n[1], 4 + len(d)) + d) + rng.choice([b"", b"\x7f\xff\x04\x00"])
    elif k == "type":
        raw[p + rng.randrange(2)] = rng.choice([0, 1, 2, 3, 4, 5, 6, 0x7F, 0xFF, rng.getrandbits(8)])
    else:
        raw += rng.choice([b"\0", b"\0\0\0\0", b"\x7f", b"\x7f\xff\x00\x00", b"\x7f\xff\x03\x00"])
    raw = bytes(raw)
    c.key(raw)
    c.event("damaged")
    ok = strict(raw)
    o = c.call(D.DevicePathFactory.from_binary, raw, cpu=5)
    c.expect(not o.hang, "damaged:no-termination", kind=k, raw=raw[:200].hex())
    if ok is False:
        c.expect(isinstance(o.exc, Exception), "damaged:accepted", kind=k, raw=raw[:200].hex(), nodes=str(o.value)[:200])
        c.event("refused")
    elif ok is not None and c.expect(o.ok, "damaged:tiled-refused", kind=k, raw=raw[:200].hex(), outcome=repr(o)):
        c.equal([(n.dev_type, n.dev_subtype, bytes(n.dev_data)) for n in o.value], ok, "damaged:nodes", raw=raw[:200].hex())


sys.exit(ck.main())
