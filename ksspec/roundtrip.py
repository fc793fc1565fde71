"""What of a command need not survive writing and reading: fields without meaning in the state at hand.

RULES maps (class family, field) to a function of the object: true when the field does not matter there.  The
family of F29_Firewall is Firewall; a full class name stands for that class and those
derived from it.  A field that does not matter must not matter in the object read back either."""

# not data of the command
NOT_DATA = ("removedKeywords", "removedAttrs", "deprecated")

# words of the domain do not start with a prefix that is taken off names twice, nor are they nothing but that prefix
TWICE = ("/dev//dev/", "mdmd")
PREFIX_ONLY = ("md", "/dev/")


def unencrypted(o):
    return not o.encrypted


def no_escrow(o):
    return not o.encrypted or not o.escrowcert


def unset_size(o):
    return o.size is None or o.size <= 0


def unset_maxsize(o):
    return o.maxSizeMB is None or o.maxSizeMB <= 0


def always(o):
    return True


def no_clear_type(o):
    return o.type is None


def no_partition(o):
    return not o.partition


def firewall_off(o):
    return not o.enabled


def firewall_off_or_default(o):
    return not o.enabled or o.use_system_defaults


def system_defaults(o):
    return o.use_system_defaults


def bootloader_off(o):
    return o.disabled


def no_host(o):
    return not o.host


def not_upgrade(o):
    return not o.upgrade


def newer_keyboard(o):
    return o.x_layouts or o.vc_keymap


def no_xlayouts(o):
    return not o.x_layouts


def no_password(o):
    return not o.password


def ssh_key(o):
    return o.sshkey


def no_thin_volume(o):
    return not o.thin_volume


def no_chunk_size(o):
    return not o.thin_pool or not o.chunk_size


def no_metadata_size(o):
    return not o.thin_pool or not o.metadata_size


def no_reserved_space(o):
    return not o.reserved_space


def no_reserved_percent(o):
    return not o.reserved_percent


def usual_inode_size(o):
    return o.bytesPerInode == 0 or o.bytesPerInode == 4096


def no_subvol(o):
    return not o.subvol


def not_reconfigure(o):
    return o.action != "reconfigure"


def groups_kept(o):
    return not o.ignoregroups


def no_timezone(o):
    return not o.timezone


def no_extent_size(o):
    return o.pesize == 0 or o.pesize == 32768


def no_servers(o):
    return not o.ntpservers


RULES = {}


def _set(fams, fields, f):
    for fam in fams:
        for k in fields:
            RULES[fam, k] = f


_ENC = ("passphrase", "escrowcert", "backuppassphrase", "cipher", "luks_version", "pbkdf", "pbkdf_memory",
        "pbkdf_time", "pbkdf_iterations")
_set(("PartData", "RaidData", "LogVolData", "AutoPart"), _ENC, unencrypted)
_set(("AutoPart", "PartData", "RaidData", "LogVolData"), ("backuppassphrase",), no_escrow)
_set(("Install",), ("root_device",), always)
_set(("F21_Bootloader",), ("password", "isCrypted", "appendLine", "location", "driveorder", "timeout", "default",
                           "upgrade", "extlinux", "leavebootorder", "nombr", "bootDrive"), bootloader_off)
_set(("F34_Logging",), ("level",), always)
_set(("PartData", "LogVolData"), ("size",), unset_size)
_set(("PartData", "LogVolData"), ("maxSizeMB",), unset_maxsize)
_set(("ClearPart",), ("drives", "initAll", "disklabel", "cdl"), no_clear_type)
_set(("DriverDiskData",), ("type",), no_partition)
_set(("Firewall",), ("ports", "trusts", "services", "remove_services"), firewall_off)
_set(("Vnc",), ("port",), no_host)
_set(("Upgrade",), ("root_device",), not_upgrade)
_set(("Keyboard",), ("_keyboard",), newer_keyboard)
_set(("Keyboard",), ("switch_options",), no_xlayouts)
_set(("RootPw",), ("isCrypted",), no_password)
_set(("SshPwData",), ("isCrypted", "lock"), ssh_key)
_set(("LogVolData",), ("pool_name",), no_thin_volume)
_set(("LogVolData",), ("metadata_size",), no_metadata_size)
_set(("LogVolData",), ("chunk_size",), no_chunk_size)
_set(("PartData", "RaidData", "LogVolData"), ("bytesPerInode",), usual_inode_size)
_set(("PartData", "RaidData", "LogVolData"), ("bytes_per_inode",), always)              # deprecated option
_set(("FC6_XConfig",), ("card", "hsync", "monitor", "noprobe", "vsync"), always)       # deprecated options
_set(("F10_XConfig",), ("driver", "depth", "resolution", "videoram"), always)
_set(("BTRFSData",), ("name",), no_subvol)
_set(("NvdimmData",), ("mode", "sectorsize"), not_reconfigure)
_set(("VolGroupData",), ("reserved_space",), no_reserved_space)
_set(("VolGroupData",), ("reserved_percent",), no_reserved_percent)
_set(("RepoData",), ("ignoregroups",), groups_kept)
_set(("Timezone",), ("timezone",), no_timezone)
_set(("Timezone",), ("ntpservers",), no_servers)



_set(("VolGroupData",), ("pesize",), no_extent_size)
_set(("F28_Firewall",), ("ports", "trusts", "services", "remove_services"), firewall_off_or_default)
_set(("F28_Firewall",), ("enabled",), system_defaults)
# left over by options that do nothing, or by words another field repeats
_set(("Firewall",), ("high", "medium", "telnet"), always)
_set(("Keyboard",), ("kbd",), always)
_set(("VolGroupData",), ("name", "partitions"), always)


def rule(cls, field):
    """the rule of a class or of the nearest class it extends, else that of its family"""
    for k in cls.__mro__:
        if (k.__name__, field) in RULES:
            return RULES[k.__name__, field]
    return RULES.get((cls.__name__.split("_")[-1], field))


# options whose value the writer quotes: (class family or class name, option)
_ENCQ = ("--passphrase", "--escrowcert", "--cipher")
QUOTED = {(fam, o) for fams, os in [
    (("Bootloader",), ("--append", "--password", "--md5pass")),
    (("Partition", "Raid"), ("--fstype", "--fsoptions", "--fsprofile", "--mkfsoptions") + _ENCQ),
    (("LogVol",), ("--fstype", "--fsoptions", "--fsprofile", "--mkfsoptions") + _ENCQ),
    (("AutoPart",), _ENCQ),
    (("Network",), ("--essid", "--ethtool")),
    (("Url",), ("--url", "--proxy", "--mirrorlist", "--metalink")),
    (("Repo",), ("--proxy", "--sslcacert", "--sslclientcert", "--sslclientkey")),
    (("Liveimg",), ("--url", "--proxy", "--checksum")),
    (("NFS",), ("--opts",)),
    (("Device",), ("--opts",)),
    (("User",), ("--gecos",)),
    (("Monitor",), ("--monitor",)),
    (("RHSM",), ("--organization", "--proxy", "--server-hostname", "--rhsm-baseurl")),
    (("Syspurpose",), ("--role", "--sla", "--usage", "--addon")),
] for fam in fams for o in os}


def quoted(cls, option):
    return any((k.__name__, option) in QUOTED or (k.__name__.split("_")[-1], option) in QUOTED for k in cls.__mro__)


# listed findings: (key, predicate over class, argument lists, problem)
def _has(lines, option):
    return any(w == option or w.startswith(option + "=") for a in lines for w in a)


def _nolinear(cls, lines, problem):
    return cls.__name__ in ("FC3_Bootloader", "FC3_Lilo") and _has(lines, "--nolinear") and problem == "field linear is lost"


def _named_port(cls, lines, problem):
    if cls.__name__ not in ("FC3_Firewall", "F9_Firewall") or problem != "field ports is lost":
        return False
    ports = [p.strip() for a in lines for i, w in enumerate(a) if "--port".startswith(w.partition("=")[0]) and len(w) > 2
             for p in (w.partition("=")[2] or " ".join(a[i + 1:i + 2])).split(",")]
    return any(p.partition(":")[0] in ("ssh", "telnet", "smtp", "http", "ftp") for p in ports)


def _interactive(cls, lines, problem):
    return cls.__name__ in ("F29_IgnoreDisk",) and problem == "the written text is rejected" \
        and any("--interactive".startswith(w) and len(w) > 3 for w in lines[0]) and any(w.startswith(("--d", "--o")) for w in lines[0])


def _md(cls, lines, problem):
    return cls.__name__.endswith("Raid") and problem == "the written text is rejected" and any("=md" in w or w == "md" for w in lines[0])


FINDINGS = [("nolinear", _nolinear), ("named-port", _named_port), ("ignoredisk-interactive", _interactive), ("raid-device-md", _md)]
WITNESS = {
    "FC3_Bootloader": [["--nolinear"]], "FC3_Lilo": [["--nolinear"]],
    "FC3_Firewall": [["--port=ssh:tcp"]], "F9_Firewall": [["--port=ssh:tcp"]],
    "F29_IgnoreDisk": [["--interactive", "--drives=sda"]],
    "F19_Raid": [["/x", "--device=md", "--level=RAID1", "raid.1", "raid.2"]],
    "RHEL6_Raid": [["/x", "--device=md", "--level=RAID1", "raid.1", "raid.2"]],
}

# obligations these findings falsify
EXCUSED = {("FC3_Bootloader", "field linear is read back"), ("FC3_Lilo", "field linear is read back"), ("F29_IgnoreDisk", "the written line is accepted")}

# options left out of the symbolic runs (covered by the bounded native runs): they add to the list another option fills
LEFT_OUT = {("Firewall", o) for o in ("--ftp", "--http", "--smtp", "--ssh")}
