"""What bit masks read as, straight from the property: flags in table order, each listed when all its bits are present
and not taken by an earlier listed flag."""
from spec import tables as T


def flags(mask, table, sep):
    names = []
    for bits, name in table:
        if mask & bits == bits:
            names.append(name)
            mask = mask & ~bits
    return sep.join(names)


def generic(mask, mapping):
    for bit, rights in zip((0x80000000, 0x40000000, 0x20000000, 0x10000000), mapping):
        if mask & bit != 0:
            mask = mask | rights
    return mask


def access(mask, table, mapping):
    m = generic(mask, mapping)
    text = flags(m, table, ", ")
    return text if text != "" else "None 0x%x" % m


def reg_access(mask): return access(mask, T.REG_ACCESS, T.REG_GENERIC)
def fs_access(mask): return access(mask, T.FS_ACCESS, T.FS_GENERIC)
def options(mask): return flags(mask, T.CREATE_OPTIONS, ", ")
def attributes(mask): return flags(mask, T.ATTRIBUTES, "") if mask != 0 else "n/a"
def share(mask): return flags(mask, T.SHARE, ", ") if mask != 0 else "None"
def io_flags(mask): return flags(mask, T.IO_FLAGS, ", ")
def notify(mask): return flags(mask, T.NOTIFY, ", ")
