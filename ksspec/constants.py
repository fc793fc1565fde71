CLEARPART_TYPE_LINUX = 0
CLEARPART_TYPE_ALL = 1
CLEARPART_TYPE_NONE = 2
CLEARPART_TYPE_LIST = 3
AUTOPART_TYPE_PLAIN = 0
AUTOPART_TYPE_BTRFS = 1
AUTOPART_TYPE_LVM = 2
AUTOPART_TYPE_LVM_THINP = 3
DISPLAY_MODE_CMDLINE = 0
DISPLAY_MODE_GRAPHICAL = 1
DISPLAY_MODE_TEXT = 2
FIRSTBOOT_DEFAULT = 0
FIRSTBOOT_SKIP = 1
FIRSTBOOT_RECONFIG = 2
KS_MISSING_PROMPT = 0
KS_MISSING_IGNORE = 1
KS_BROKEN_REPORT = 0
KS_BROKEN_IGNORE = 1
SELINUX_DISABLED = 0
SELINUX_ENFORCING = 1
SELINUX_PERMISSIVE = 2
SNAPSHOT_WHEN_POST_INSTALL = 0
SNAPSHOT_WHEN_PRE_INSTALL = 1
KS_SCRIPT_PRE = 0
KS_SCRIPT_POST = 1
KS_SCRIPT_TRACEBACK = 2
KS_SCRIPT_PREINSTALL = 3
KS_SCRIPT_ONERROR = 4
KS_WAIT = 0
KS_REBOOT = 1
KS_SHUTDOWN = 2
KS_INSTKEY_SKIP = -99
BOOTPROTO_DHCP = 'dhcp'
BOOTPROTO_BOOTP = 'bootp'
BOOTPROTO_STATIC = 'static'
BOOTPROTO_QUERY = 'query'
BOOTPROTO_IBFT = 'ibft'
GROUP_REQUIRED = 0
GROUP_DEFAULT = 1
GROUP_ALL = 2
BIND_TO_MAC = 'mac'
NVDIMM_MODE_SECTOR = 'sector'
NVDIMM_ACTION_RECONFIGURE = 'reconfigure'
NVDIMM_ACTION_USE = 'use'
SECURE_BOOT_DEFAULT = -1
SECURE_BOOT_DISABLED = 0
SECURE_BOOT_ENABLED = 1
SECURE_BOOT_AUTO = 2
