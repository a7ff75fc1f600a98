// Generated from the export list of the standard package.
package syscall

import std "syscall"

type (
	Cmsghdr              = std.Cmsghdr
	Conn                 = std.Conn
	Credential           = std.Credential
	Dirent               = std.Dirent
	EpollEvent           = std.EpollEvent
	Errno                = std.Errno
	FdSet                = std.FdSet
	Flock_t              = std.Flock_t
	Fsid                 = std.Fsid
	ICMPv6Filter         = std.ICMPv6Filter
	IPMreq               = std.IPMreq
	IPMreqn              = std.IPMreqn
	IPv6MTUInfo          = std.IPv6MTUInfo
	IPv6Mreq             = std.IPv6Mreq
	IfAddrmsg            = std.IfAddrmsg
	IfInfomsg            = std.IfInfomsg
	Inet4Pktinfo         = std.Inet4Pktinfo
	Inet6Pktinfo         = std.Inet6Pktinfo
	InotifyEvent         = std.InotifyEvent
	Iovec                = std.Iovec
	Linger               = std.Linger
	Msghdr               = std.Msghdr
	NetlinkMessage       = std.NetlinkMessage
	NetlinkRouteAttr     = std.NetlinkRouteAttr
	NetlinkRouteRequest  = std.NetlinkRouteRequest
	NlAttr               = std.NlAttr
	NlMsgerr             = std.NlMsgerr
	NlMsghdr             = std.NlMsghdr
	ProcAttr             = std.ProcAttr
	PtraceRegs           = std.PtraceRegs
	RawConn              = std.RawConn
	RawSockaddr          = std.RawSockaddr
	RawSockaddrAny       = std.RawSockaddrAny
	RawSockaddrInet4     = std.RawSockaddrInet4
	RawSockaddrInet6     = std.RawSockaddrInet6
	RawSockaddrLinklayer = std.RawSockaddrLinklayer
	RawSockaddrNetlink   = std.RawSockaddrNetlink
	RawSockaddrUnix      = std.RawSockaddrUnix
	Rlimit               = std.Rlimit
	RtAttr               = std.RtAttr
	RtGenmsg             = std.RtGenmsg
	RtMsg                = std.RtMsg
	RtNexthop            = std.RtNexthop
	Rusage               = std.Rusage
	Signal               = std.Signal
	SockFilter           = std.SockFilter
	SockFprog            = std.SockFprog
	Sockaddr             = std.Sockaddr
	SockaddrInet4        = std.SockaddrInet4
	SockaddrInet6        = std.SockaddrInet6
	SockaddrLinklayer    = std.SockaddrLinklayer
	SockaddrNetlink      = std.SockaddrNetlink
	SockaddrUnix         = std.SockaddrUnix
	SocketControlMessage = std.SocketControlMessage
	Stat_t               = std.Stat_t
	Statfs_t             = std.Statfs_t
	SysProcAttr          = std.SysProcAttr
	SysProcIDMap         = std.SysProcIDMap
	Sysinfo_t            = std.Sysinfo_t
	TCPInfo              = std.TCPInfo
	Termios              = std.Termios
	Time_t               = std.Time_t
	Timespec             = std.Timespec
	Timeval              = std.Timeval
	Timex                = std.Timex
	Tms                  = std.Tms
	Ucred                = std.Ucred
	Ustat_t              = std.Ustat_t
	Utimbuf              = std.Utimbuf
	Utsname              = std.Utsname
	WaitStatus           = std.WaitStatus
)

const (
	AF_ALG                           = std.AF_ALG
	AF_APPLETALK                     = std.AF_APPLETALK
	AF_ASH                           = std.AF_ASH
	AF_ATMPVC                        = std.AF_ATMPVC
	AF_ATMSVC                        = std.AF_ATMSVC
	AF_AX25                          = std.AF_AX25
	AF_BLUETOOTH                     = std.AF_BLUETOOTH
	AF_BRIDGE                        = std.AF_BRIDGE
	AF_CAIF                          = std.AF_CAIF
	AF_CAN                           = std.AF_CAN
	AF_DECnet                        = std.AF_DECnet
	AF_ECONET                        = std.AF_ECONET
	AF_FILE                          = std.AF_FILE
	AF_IEEE802154                    = std.AF_IEEE802154
	AF_INET                          = std.AF_INET
	AF_INET6                         = std.AF_INET6
	AF_IPX                           = std.AF_IPX
	AF_IRDA                          = std.AF_IRDA
	AF_ISDN                          = std.AF_ISDN
	AF_IUCV                          = std.AF_IUCV
	AF_KEY                           = std.AF_KEY
	AF_LLC                           = std.AF_LLC
	AF_LOCAL                         = std.AF_LOCAL
	AF_MAX                           = std.AF_MAX
	AF_NETBEUI                       = std.AF_NETBEUI
	AF_NETLINK                       = std.AF_NETLINK
	AF_NETROM                        = std.AF_NETROM
	AF_PACKET                        = std.AF_PACKET
	AF_PHONET                        = std.AF_PHONET
	AF_PPPOX                         = std.AF_PPPOX
	AF_RDS                           = std.AF_RDS
	AF_ROSE                          = std.AF_ROSE
	AF_ROUTE                         = std.AF_ROUTE
	AF_RXRPC                         = std.AF_RXRPC
	AF_SECURITY                      = std.AF_SECURITY
	AF_SNA                           = std.AF_SNA
	AF_TIPC                          = std.AF_TIPC
	AF_UNIX                          = std.AF_UNIX
	AF_UNSPEC                        = std.AF_UNSPEC
	AF_WANPIPE                       = std.AF_WANPIPE
	AF_X25                           = std.AF_X25
	ARPHRD_ADAPT                     = std.ARPHRD_ADAPT
	ARPHRD_APPLETLK                  = std.ARPHRD_APPLETLK
	ARPHRD_ARCNET                    = std.ARPHRD_ARCNET
	ARPHRD_ASH                       = std.ARPHRD_ASH
	ARPHRD_ATM                       = std.ARPHRD_ATM
	ARPHRD_AX25                      = std.ARPHRD_AX25
	ARPHRD_BIF                       = std.ARPHRD_BIF
	ARPHRD_CHAOS                     = std.ARPHRD_CHAOS
	ARPHRD_CISCO                     = std.ARPHRD_CISCO
	ARPHRD_CSLIP                     = std.ARPHRD_CSLIP
	ARPHRD_CSLIP6                    = std.ARPHRD_CSLIP6
	ARPHRD_DDCMP                     = std.ARPHRD_DDCMP
	ARPHRD_DLCI                      = std.ARPHRD_DLCI
	ARPHRD_ECONET                    = std.ARPHRD_ECONET
	ARPHRD_EETHER                    = std.ARPHRD_EETHER
	ARPHRD_ETHER                     = std.ARPHRD_ETHER
	ARPHRD_EUI64                     = std.ARPHRD_EUI64
	ARPHRD_FCAL                      = std.ARPHRD_FCAL
	ARPHRD_FCFABRIC                  = std.ARPHRD_FCFABRIC
	ARPHRD_FCPL                      = std.ARPHRD_FCPL
	ARPHRD_FCPP                      = std.ARPHRD_FCPP
	ARPHRD_FDDI                      = std.ARPHRD_FDDI
	ARPHRD_FRAD                      = std.ARPHRD_FRAD
	ARPHRD_HDLC                      = std.ARPHRD_HDLC
	ARPHRD_HIPPI                     = std.ARPHRD_HIPPI
	ARPHRD_HWX25                     = std.ARPHRD_HWX25
	ARPHRD_IEEE1394                  = std.ARPHRD_IEEE1394
	ARPHRD_IEEE802                   = std.ARPHRD_IEEE802
	ARPHRD_IEEE80211                 = std.ARPHRD_IEEE80211
	ARPHRD_IEEE80211_PRISM           = std.ARPHRD_IEEE80211_PRISM
	ARPHRD_IEEE80211_RADIOTAP        = std.ARPHRD_IEEE80211_RADIOTAP
	ARPHRD_IEEE802154                = std.ARPHRD_IEEE802154
	ARPHRD_IEEE802154_PHY            = std.ARPHRD_IEEE802154_PHY
	ARPHRD_IEEE802_TR                = std.ARPHRD_IEEE802_TR
	ARPHRD_INFINIBAND                = std.ARPHRD_INFINIBAND
	ARPHRD_IPDDP                     = std.ARPHRD_IPDDP
	ARPHRD_IPGRE                     = std.ARPHRD_IPGRE
	ARPHRD_IRDA                      = std.ARPHRD_IRDA
	ARPHRD_LAPB                      = std.ARPHRD_LAPB
	ARPHRD_LOCALTLK                  = std.ARPHRD_LOCALTLK
	ARPHRD_LOOPBACK                  = std.ARPHRD_LOOPBACK
	ARPHRD_METRICOM                  = std.ARPHRD_METRICOM
	ARPHRD_NETROM                    = std.ARPHRD_NETROM
	ARPHRD_NONE                      = std.ARPHRD_NONE
	ARPHRD_PIMREG                    = std.ARPHRD_PIMREG
	ARPHRD_PPP                       = std.ARPHRD_PPP
	ARPHRD_PRONET                    = std.ARPHRD_PRONET
	ARPHRD_RAWHDLC                   = std.ARPHRD_RAWHDLC
	ARPHRD_ROSE                      = std.ARPHRD_ROSE
	ARPHRD_RSRVD                     = std.ARPHRD_RSRVD
	ARPHRD_SIT                       = std.ARPHRD_SIT
	ARPHRD_SKIP                      = std.ARPHRD_SKIP
	ARPHRD_SLIP                      = std.ARPHRD_SLIP
	ARPHRD_SLIP6                     = std.ARPHRD_SLIP6
	ARPHRD_TUNNEL                    = std.ARPHRD_TUNNEL
	ARPHRD_TUNNEL6                   = std.ARPHRD_TUNNEL6
	ARPHRD_VOID                      = std.ARPHRD_VOID
	ARPHRD_X25                       = std.ARPHRD_X25
	B0                               = std.B0
	B1000000                         = std.B1000000
	B110                             = std.B110
	B115200                          = std.B115200
	B1152000                         = std.B1152000
	B1200                            = std.B1200
	B134                             = std.B134
	B150                             = std.B150
	B1500000                         = std.B1500000
	B1800                            = std.B1800
	B19200                           = std.B19200
	B200                             = std.B200
	B2000000                         = std.B2000000
	B230400                          = std.B230400
	B2400                            = std.B2400
	B2500000                         = std.B2500000
	B300                             = std.B300
	B3000000                         = std.B3000000
	B3500000                         = std.B3500000
	B38400                           = std.B38400
	B4000000                         = std.B4000000
	B460800                          = std.B460800
	B4800                            = std.B4800
	B50                              = std.B50
	B500000                          = std.B500000
	B57600                           = std.B57600
	B576000                          = std.B576000
	B600                             = std.B600
	B75                              = std.B75
	B921600                          = std.B921600
	B9600                            = std.B9600
	BPF_A                            = std.BPF_A
	BPF_ABS                          = std.BPF_ABS
	BPF_ADD                          = std.BPF_ADD
	BPF_ALU                          = std.BPF_ALU
	BPF_AND                          = std.BPF_AND
	BPF_B                            = std.BPF_B
	BPF_DIV                          = std.BPF_DIV
	BPF_H                            = std.BPF_H
	BPF_IMM                          = std.BPF_IMM
	BPF_IND                          = std.BPF_IND
	BPF_JA                           = std.BPF_JA
	BPF_JEQ                          = std.BPF_JEQ
	BPF_JGE                          = std.BPF_JGE
	BPF_JGT                          = std.BPF_JGT
	BPF_JMP                          = std.BPF_JMP
	BPF_JSET                         = std.BPF_JSET
	BPF_K                            = std.BPF_K
	BPF_LD                           = std.BPF_LD
	BPF_LDX                          = std.BPF_LDX
	BPF_LEN                          = std.BPF_LEN
	BPF_LSH                          = std.BPF_LSH
	BPF_MAJOR_VERSION                = std.BPF_MAJOR_VERSION
	BPF_MAXINSNS                     = std.BPF_MAXINSNS
	BPF_MEM                          = std.BPF_MEM
	BPF_MEMWORDS                     = std.BPF_MEMWORDS
	BPF_MINOR_VERSION                = std.BPF_MINOR_VERSION
	BPF_MISC                         = std.BPF_MISC
	BPF_MSH                          = std.BPF_MSH
	BPF_MUL                          = std.BPF_MUL
	BPF_NEG                          = std.BPF_NEG
	BPF_OR                           = std.BPF_OR
	BPF_RET                          = std.BPF_RET
	BPF_RSH                          = std.BPF_RSH
	BPF_ST                           = std.BPF_ST
	BPF_STX                          = std.BPF_STX
	BPF_SUB                          = std.BPF_SUB
	BPF_TAX                          = std.BPF_TAX
	BPF_TXA                          = std.BPF_TXA
	BPF_W                            = std.BPF_W
	BPF_X                            = std.BPF_X
	BRKINT                           = std.BRKINT
	CLOCAL                           = std.CLOCAL
	CLONE_CHILD_CLEARTID             = std.CLONE_CHILD_CLEARTID
	CLONE_CHILD_SETTID               = std.CLONE_CHILD_SETTID
	CLONE_CLEAR_SIGHAND              = std.CLONE_CLEAR_SIGHAND
	CLONE_DETACHED                   = std.CLONE_DETACHED
	CLONE_FILES                      = std.CLONE_FILES
	CLONE_FS                         = std.CLONE_FS
	CLONE_INTO_CGROUP                = std.CLONE_INTO_CGROUP
	CLONE_IO                         = std.CLONE_IO
	CLONE_NEWCGROUP                  = std.CLONE_NEWCGROUP
	CLONE_NEWIPC                     = std.CLONE_NEWIPC
	CLONE_NEWNET                     = std.CLONE_NEWNET
	CLONE_NEWNS                      = std.CLONE_NEWNS
	CLONE_NEWPID                     = std.CLONE_NEWPID
	CLONE_NEWTIME                    = std.CLONE_NEWTIME
	CLONE_NEWUSER                    = std.CLONE_NEWUSER
	CLONE_NEWUTS                     = std.CLONE_NEWUTS
	CLONE_PARENT                     = std.CLONE_PARENT
	CLONE_PARENT_SETTID              = std.CLONE_PARENT_SETTID
	CLONE_PIDFD                      = std.CLONE_PIDFD
	CLONE_PTRACE                     = std.CLONE_PTRACE
	CLONE_SETTLS                     = std.CLONE_SETTLS
	CLONE_SIGHAND                    = std.CLONE_SIGHAND
	CLONE_SYSVSEM                    = std.CLONE_SYSVSEM
	CLONE_THREAD                     = std.CLONE_THREAD
	CLONE_UNTRACED                   = std.CLONE_UNTRACED
	CLONE_VFORK                      = std.CLONE_VFORK
	CLONE_VM                         = std.CLONE_VM
	CREAD                            = std.CREAD
	CS5                              = std.CS5
	CS6                              = std.CS6
	CS7                              = std.CS7
	CS8                              = std.CS8
	CSIZE                            = std.CSIZE
	CSTOPB                           = std.CSTOPB
	DT_BLK                           = std.DT_BLK
	DT_CHR                           = std.DT_CHR
	DT_DIR                           = std.DT_DIR
	DT_FIFO                          = std.DT_FIFO
	DT_LNK                           = std.DT_LNK
	DT_REG                           = std.DT_REG
	DT_SOCK                          = std.DT_SOCK
	DT_UNKNOWN                       = std.DT_UNKNOWN
	DT_WHT                           = std.DT_WHT
	E2BIG                            = std.E2BIG
	EACCES                           = std.EACCES
	EADDRINUSE                       = std.EADDRINUSE
	EADDRNOTAVAIL                    = std.EADDRNOTAVAIL
	EADV                             = std.EADV
	EAFNOSUPPORT                     = std.EAFNOSUPPORT
	EAGAIN                           = std.EAGAIN
	EALREADY                         = std.EALREADY
	EBADE                            = std.EBADE
	EBADF                            = std.EBADF
	EBADFD                           = std.EBADFD
	EBADMSG                          = std.EBADMSG
	EBADR                            = std.EBADR
	EBADRQC                          = std.EBADRQC
	EBADSLT                          = std.EBADSLT
	EBFONT                           = std.EBFONT
	EBUSY                            = std.EBUSY
	ECANCELED                        = std.ECANCELED
	ECHILD                           = std.ECHILD
	ECHO                             = std.ECHO
	ECHOCTL                          = std.ECHOCTL
	ECHOE                            = std.ECHOE
	ECHOK                            = std.ECHOK
	ECHOKE                           = std.ECHOKE
	ECHONL                           = std.ECHONL
	ECHOPRT                          = std.ECHOPRT
	ECHRNG                           = std.ECHRNG
	ECOMM                            = std.ECOMM
	ECONNABORTED                     = std.ECONNABORTED
	ECONNREFUSED                     = std.ECONNREFUSED
	ECONNRESET                       = std.ECONNRESET
	EDEADLK                          = std.EDEADLK
	EDEADLOCK                        = std.EDEADLOCK
	EDESTADDRREQ                     = std.EDESTADDRREQ
	EDOM                             = std.EDOM
	EDOTDOT                          = std.EDOTDOT
	EDQUOT                           = std.EDQUOT
	EEXIST                           = std.EEXIST
	EFAULT                           = std.EFAULT
	EFBIG                            = std.EFBIG
	EHOSTDOWN                        = std.EHOSTDOWN
	EHOSTUNREACH                     = std.EHOSTUNREACH
	EIDRM                            = std.EIDRM
	EILSEQ                           = std.EILSEQ
	EINPROGRESS                      = std.EINPROGRESS
	EINTR                            = std.EINTR
	EINVAL                           = std.EINVAL
	EIO                              = std.EIO
	EISCONN                          = std.EISCONN
	EISDIR                           = std.EISDIR
	EISNAM                           = std.EISNAM
	EKEYEXPIRED                      = std.EKEYEXPIRED
	EKEYREJECTED                     = std.EKEYREJECTED
	EKEYREVOKED                      = std.EKEYREVOKED
	EL2HLT                           = std.EL2HLT
	EL2NSYNC                         = std.EL2NSYNC
	EL3HLT                           = std.EL3HLT
	EL3RST                           = std.EL3RST
	ELIBACC                          = std.ELIBACC
	ELIBBAD                          = std.ELIBBAD
	ELIBEXEC                         = std.ELIBEXEC
	ELIBMAX                          = std.ELIBMAX
	ELIBSCN                          = std.ELIBSCN
	ELNRNG                           = std.ELNRNG
	ELOOP                            = std.ELOOP
	EMEDIUMTYPE                      = std.EMEDIUMTYPE
	EMFILE                           = std.EMFILE
	EMLINK                           = std.EMLINK
	EMSGSIZE                         = std.EMSGSIZE
	EMULTIHOP                        = std.EMULTIHOP
	ENAMETOOLONG                     = std.ENAMETOOLONG
	ENAVAIL                          = std.ENAVAIL
	ENETDOWN                         = std.ENETDOWN
	ENETRESET                        = std.ENETRESET
	ENETUNREACH                      = std.ENETUNREACH
	ENFILE                           = std.ENFILE
	ENOANO                           = std.ENOANO
	ENOBUFS                          = std.ENOBUFS
	ENOCSI                           = std.ENOCSI
	ENODATA                          = std.ENODATA
	ENODEV                           = std.ENODEV
	ENOENT                           = std.ENOENT
	ENOEXEC                          = std.ENOEXEC
	ENOKEY                           = std.ENOKEY
	ENOLCK                           = std.ENOLCK
	ENOLINK                          = std.ENOLINK
	ENOMEDIUM                        = std.ENOMEDIUM
	ENOMEM                           = std.ENOMEM
	ENOMSG                           = std.ENOMSG
	ENONET                           = std.ENONET
	ENOPKG                           = std.ENOPKG
	ENOPROTOOPT                      = std.ENOPROTOOPT
	ENOSPC                           = std.ENOSPC
	ENOSR                            = std.ENOSR
	ENOSTR                           = std.ENOSTR
	ENOSYS                           = std.ENOSYS
	ENOTBLK                          = std.ENOTBLK
	ENOTCONN                         = std.ENOTCONN
	ENOTDIR                          = std.ENOTDIR
	ENOTEMPTY                        = std.ENOTEMPTY
	ENOTNAM                          = std.ENOTNAM
	ENOTRECOVERABLE                  = std.ENOTRECOVERABLE
	ENOTSOCK                         = std.ENOTSOCK
	ENOTSUP                          = std.ENOTSUP
	ENOTTY                           = std.ENOTTY
	ENOTUNIQ                         = std.ENOTUNIQ
	ENXIO                            = std.ENXIO
	EOPNOTSUPP                       = std.EOPNOTSUPP
	EOVERFLOW                        = std.EOVERFLOW
	EOWNERDEAD                       = std.EOWNERDEAD
	EPERM                            = std.EPERM
	EPFNOSUPPORT                     = std.EPFNOSUPPORT
	EPIPE                            = std.EPIPE
	EPOLLERR                         = std.EPOLLERR
	EPOLLET                          = std.EPOLLET
	EPOLLHUP                         = std.EPOLLHUP
	EPOLLIN                          = std.EPOLLIN
	EPOLLMSG                         = std.EPOLLMSG
	EPOLLONESHOT                     = std.EPOLLONESHOT
	EPOLLOUT                         = std.EPOLLOUT
	EPOLLPRI                         = std.EPOLLPRI
	EPOLLRDBAND                      = std.EPOLLRDBAND
	EPOLLRDHUP                       = std.EPOLLRDHUP
	EPOLLRDNORM                      = std.EPOLLRDNORM
	EPOLLWRBAND                      = std.EPOLLWRBAND
	EPOLLWRNORM                      = std.EPOLLWRNORM
	EPOLL_CLOEXEC                    = std.EPOLL_CLOEXEC
	EPOLL_CTL_ADD                    = std.EPOLL_CTL_ADD
	EPOLL_CTL_DEL                    = std.EPOLL_CTL_DEL
	EPOLL_CTL_MOD                    = std.EPOLL_CTL_MOD
	EPOLL_NONBLOCK                   = std.EPOLL_NONBLOCK
	EPROTO                           = std.EPROTO
	EPROTONOSUPPORT                  = std.EPROTONOSUPPORT
	EPROTOTYPE                       = std.EPROTOTYPE
	ERANGE                           = std.ERANGE
	EREMCHG                          = std.EREMCHG
	EREMOTE                          = std.EREMOTE
	EREMOTEIO                        = std.EREMOTEIO
	ERESTART                         = std.ERESTART
	ERFKILL                          = std.ERFKILL
	EROFS                            = std.EROFS
	ESHUTDOWN                        = std.ESHUTDOWN
	ESOCKTNOSUPPORT                  = std.ESOCKTNOSUPPORT
	ESPIPE                           = std.ESPIPE
	ESRCH                            = std.ESRCH
	ESRMNT                           = std.ESRMNT
	ESTALE                           = std.ESTALE
	ESTRPIPE                         = std.ESTRPIPE
	ETH_P_1588                       = std.ETH_P_1588
	ETH_P_8021Q                      = std.ETH_P_8021Q
	ETH_P_802_2                      = std.ETH_P_802_2
	ETH_P_802_3                      = std.ETH_P_802_3
	ETH_P_AARP                       = std.ETH_P_AARP
	ETH_P_ALL                        = std.ETH_P_ALL
	ETH_P_AOE                        = std.ETH_P_AOE
	ETH_P_ARCNET                     = std.ETH_P_ARCNET
	ETH_P_ARP                        = std.ETH_P_ARP
	ETH_P_ATALK                      = std.ETH_P_ATALK
	ETH_P_ATMFATE                    = std.ETH_P_ATMFATE
	ETH_P_ATMMPOA                    = std.ETH_P_ATMMPOA
	ETH_P_AX25                       = std.ETH_P_AX25
	ETH_P_BPQ                        = std.ETH_P_BPQ
	ETH_P_CAIF                       = std.ETH_P_CAIF
	ETH_P_CAN                        = std.ETH_P_CAN
	ETH_P_CONTROL                    = std.ETH_P_CONTROL
	ETH_P_CUST                       = std.ETH_P_CUST
	ETH_P_DDCMP                      = std.ETH_P_DDCMP
	ETH_P_DEC                        = std.ETH_P_DEC
	ETH_P_DIAG                       = std.ETH_P_DIAG
	ETH_P_DNA_DL                     = std.ETH_P_DNA_DL
	ETH_P_DNA_RC                     = std.ETH_P_DNA_RC
	ETH_P_DNA_RT                     = std.ETH_P_DNA_RT
	ETH_P_DSA                        = std.ETH_P_DSA
	ETH_P_ECONET                     = std.ETH_P_ECONET
	ETH_P_EDSA                       = std.ETH_P_EDSA
	ETH_P_FCOE                       = std.ETH_P_FCOE
	ETH_P_FIP                        = std.ETH_P_FIP
	ETH_P_HDLC                       = std.ETH_P_HDLC
	ETH_P_IEEE802154                 = std.ETH_P_IEEE802154
	ETH_P_IEEEPUP                    = std.ETH_P_IEEEPUP
	ETH_P_IEEEPUPAT                  = std.ETH_P_IEEEPUPAT
	ETH_P_IP                         = std.ETH_P_IP
	ETH_P_IPV6                       = std.ETH_P_IPV6
	ETH_P_IPX                        = std.ETH_P_IPX
	ETH_P_IRDA                       = std.ETH_P_IRDA
	ETH_P_LAT                        = std.ETH_P_LAT
	ETH_P_LINK_CTL                   = std.ETH_P_LINK_CTL
	ETH_P_LOCALTALK                  = std.ETH_P_LOCALTALK
	ETH_P_LOOP                       = std.ETH_P_LOOP
	ETH_P_MOBITEX                    = std.ETH_P_MOBITEX
	ETH_P_MPLS_MC                    = std.ETH_P_MPLS_MC
	ETH_P_MPLS_UC                    = std.ETH_P_MPLS_UC
	ETH_P_PAE                        = std.ETH_P_PAE
	ETH_P_PAUSE                      = std.ETH_P_PAUSE
	ETH_P_PHONET                     = std.ETH_P_PHONET
	ETH_P_PPPTALK                    = std.ETH_P_PPPTALK
	ETH_P_PPP_DISC                   = std.ETH_P_PPP_DISC
	ETH_P_PPP_MP                     = std.ETH_P_PPP_MP
	ETH_P_PPP_SES                    = std.ETH_P_PPP_SES
	ETH_P_PUP                        = std.ETH_P_PUP
	ETH_P_PUPAT                      = std.ETH_P_PUPAT
	ETH_P_RARP                       = std.ETH_P_RARP
	ETH_P_SCA                        = std.ETH_P_SCA
	ETH_P_SLOW                       = std.ETH_P_SLOW
	ETH_P_SNAP                       = std.ETH_P_SNAP
	ETH_P_TEB                        = std.ETH_P_TEB
	ETH_P_TIPC                       = std.ETH_P_TIPC
	ETH_P_TRAILER                    = std.ETH_P_TRAILER
	ETH_P_TR_802_2                   = std.ETH_P_TR_802_2
	ETH_P_WAN_PPP                    = std.ETH_P_WAN_PPP
	ETH_P_WCCP                       = std.ETH_P_WCCP
	ETH_P_X25                        = std.ETH_P_X25
	ETIME                            = std.ETIME
	ETIMEDOUT                        = std.ETIMEDOUT
	ETOOMANYREFS                     = std.ETOOMANYREFS
	ETXTBSY                          = std.ETXTBSY
	EUCLEAN                          = std.EUCLEAN
	EUNATCH                          = std.EUNATCH
	EUSERS                           = std.EUSERS
	EWOULDBLOCK                      = std.EWOULDBLOCK
	EXDEV                            = std.EXDEV
	EXFULL                           = std.EXFULL
	FD_CLOEXEC                       = std.FD_CLOEXEC
	FD_SETSIZE                       = std.FD_SETSIZE
	FLUSHO                           = std.FLUSHO
	F_DUPFD                          = std.F_DUPFD
	F_DUPFD_CLOEXEC                  = std.F_DUPFD_CLOEXEC
	F_EXLCK                          = std.F_EXLCK
	F_GETFD                          = std.F_GETFD
	F_GETFL                          = std.F_GETFL
	F_GETLEASE                       = std.F_GETLEASE
	F_GETLK                          = std.F_GETLK
	F_GETLK64                        = std.F_GETLK64
	F_GETOWN                         = std.F_GETOWN
	F_GETOWN_EX                      = std.F_GETOWN_EX
	F_GETPIPE_SZ                     = std.F_GETPIPE_SZ
	F_GETSIG                         = std.F_GETSIG
	F_LOCK                           = std.F_LOCK
	F_NOTIFY                         = std.F_NOTIFY
	F_OK                             = std.F_OK
	F_RDLCK                          = std.F_RDLCK
	F_SETFD                          = std.F_SETFD
	F_SETFL                          = std.F_SETFL
	F_SETLEASE                       = std.F_SETLEASE
	F_SETLK                          = std.F_SETLK
	F_SETLK64                        = std.F_SETLK64
	F_SETLKW                         = std.F_SETLKW
	F_SETLKW64                       = std.F_SETLKW64
	F_SETOWN                         = std.F_SETOWN
	F_SETOWN_EX                      = std.F_SETOWN_EX
	F_SETPIPE_SZ                     = std.F_SETPIPE_SZ
	F_SETSIG                         = std.F_SETSIG
	F_SHLCK                          = std.F_SHLCK
	F_TEST                           = std.F_TEST
	F_TLOCK                          = std.F_TLOCK
	F_ULOCK                          = std.F_ULOCK
	F_UNLCK                          = std.F_UNLCK
	F_WRLCK                          = std.F_WRLCK
	HUPCL                            = std.HUPCL
	ICANON                           = std.ICANON
	ICMPV6_FILTER                    = std.ICMPV6_FILTER
	ICRNL                            = std.ICRNL
	IEXTEN                           = std.IEXTEN
	IFA_ADDRESS                      = std.IFA_ADDRESS
	IFA_ANYCAST                      = std.IFA_ANYCAST
	IFA_BROADCAST                    = std.IFA_BROADCAST
	IFA_CACHEINFO                    = std.IFA_CACHEINFO
	IFA_F_DADFAILED                  = std.IFA_F_DADFAILED
	IFA_F_DEPRECATED                 = std.IFA_F_DEPRECATED
	IFA_F_HOMEADDRESS                = std.IFA_F_HOMEADDRESS
	IFA_F_NODAD                      = std.IFA_F_NODAD
	IFA_F_OPTIMISTIC                 = std.IFA_F_OPTIMISTIC
	IFA_F_PERMANENT                  = std.IFA_F_PERMANENT
	IFA_F_SECONDARY                  = std.IFA_F_SECONDARY
	IFA_F_TEMPORARY                  = std.IFA_F_TEMPORARY
	IFA_F_TENTATIVE                  = std.IFA_F_TENTATIVE
	IFA_LABEL                        = std.IFA_LABEL
	IFA_LOCAL                        = std.IFA_LOCAL
	IFA_MAX                          = std.IFA_MAX
	IFA_MULTICAST                    = std.IFA_MULTICAST
	IFA_UNSPEC                       = std.IFA_UNSPEC
	IFF_ALLMULTI                     = std.IFF_ALLMULTI
	IFF_AUTOMEDIA                    = std.IFF_AUTOMEDIA
	IFF_BROADCAST                    = std.IFF_BROADCAST
	IFF_DEBUG                        = std.IFF_DEBUG
	IFF_DYNAMIC                      = std.IFF_DYNAMIC
	IFF_LOOPBACK                     = std.IFF_LOOPBACK
	IFF_MASTER                       = std.IFF_MASTER
	IFF_MULTICAST                    = std.IFF_MULTICAST
	IFF_NOARP                        = std.IFF_NOARP
	IFF_NOTRAILERS                   = std.IFF_NOTRAILERS
	IFF_NO_PI                        = std.IFF_NO_PI
	IFF_ONE_QUEUE                    = std.IFF_ONE_QUEUE
	IFF_POINTOPOINT                  = std.IFF_POINTOPOINT
	IFF_PORTSEL                      = std.IFF_PORTSEL
	IFF_PROMISC                      = std.IFF_PROMISC
	IFF_RUNNING                      = std.IFF_RUNNING
	IFF_SLAVE                        = std.IFF_SLAVE
	IFF_TAP                          = std.IFF_TAP
	IFF_TUN                          = std.IFF_TUN
	IFF_TUN_EXCL                     = std.IFF_TUN_EXCL
	IFF_UP                           = std.IFF_UP
	IFF_VNET_HDR                     = std.IFF_VNET_HDR
	IFLA_ADDRESS                     = std.IFLA_ADDRESS
	IFLA_BROADCAST                   = std.IFLA_BROADCAST
	IFLA_COST                        = std.IFLA_COST
	IFLA_IFALIAS                     = std.IFLA_IFALIAS
	IFLA_IFNAME                      = std.IFLA_IFNAME
	IFLA_LINK                        = std.IFLA_LINK
	IFLA_LINKINFO                    = std.IFLA_LINKINFO
	IFLA_LINKMODE                    = std.IFLA_LINKMODE
	IFLA_MAP                         = std.IFLA_MAP
	IFLA_MASTER                      = std.IFLA_MASTER
	IFLA_MAX                         = std.IFLA_MAX
	IFLA_MTU                         = std.IFLA_MTU
	IFLA_NET_NS_PID                  = std.IFLA_NET_NS_PID
	IFLA_OPERSTATE                   = std.IFLA_OPERSTATE
	IFLA_PRIORITY                    = std.IFLA_PRIORITY
	IFLA_PROTINFO                    = std.IFLA_PROTINFO
	IFLA_QDISC                       = std.IFLA_QDISC
	IFLA_STATS                       = std.IFLA_STATS
	IFLA_TXQLEN                      = std.IFLA_TXQLEN
	IFLA_UNSPEC                      = std.IFLA_UNSPEC
	IFLA_WEIGHT                      = std.IFLA_WEIGHT
	IFLA_WIRELESS                    = std.IFLA_WIRELESS
	IFNAMSIZ                         = std.IFNAMSIZ
	IGNBRK                           = std.IGNBRK
	IGNCR                            = std.IGNCR
	IGNPAR                           = std.IGNPAR
	IMAXBEL                          = std.IMAXBEL
	INLCR                            = std.INLCR
	INPCK                            = std.INPCK
	IN_ACCESS                        = std.IN_ACCESS
	IN_ALL_EVENTS                    = std.IN_ALL_EVENTS
	IN_ATTRIB                        = std.IN_ATTRIB
	IN_CLASSA_HOST                   = std.IN_CLASSA_HOST
	IN_CLASSA_MAX                    = std.IN_CLASSA_MAX
	IN_CLASSA_NET                    = std.IN_CLASSA_NET
	IN_CLASSA_NSHIFT                 = std.IN_CLASSA_NSHIFT
	IN_CLASSB_HOST                   = std.IN_CLASSB_HOST
	IN_CLASSB_MAX                    = std.IN_CLASSB_MAX
	IN_CLASSB_NET                    = std.IN_CLASSB_NET
	IN_CLASSB_NSHIFT                 = std.IN_CLASSB_NSHIFT
	IN_CLASSC_HOST                   = std.IN_CLASSC_HOST
	IN_CLASSC_NET                    = std.IN_CLASSC_NET
	IN_CLASSC_NSHIFT                 = std.IN_CLASSC_NSHIFT
	IN_CLOEXEC                       = std.IN_CLOEXEC
	IN_CLOSE                         = std.IN_CLOSE
	IN_CLOSE_NOWRITE                 = std.IN_CLOSE_NOWRITE
	IN_CLOSE_WRITE                   = std.IN_CLOSE_WRITE
	IN_CREATE                        = std.IN_CREATE
	IN_DELETE                        = std.IN_DELETE
	IN_DELETE_SELF                   = std.IN_DELETE_SELF
	IN_DONT_FOLLOW                   = std.IN_DONT_FOLLOW
	IN_EXCL_UNLINK                   = std.IN_EXCL_UNLINK
	IN_IGNORED                       = std.IN_IGNORED
	IN_ISDIR                         = std.IN_ISDIR
	IN_LOOPBACKNET                   = std.IN_LOOPBACKNET
	IN_MASK_ADD                      = std.IN_MASK_ADD
	IN_MODIFY                        = std.IN_MODIFY
	IN_MOVE                          = std.IN_MOVE
	IN_MOVED_FROM                    = std.IN_MOVED_FROM
	IN_MOVED_TO                      = std.IN_MOVED_TO
	IN_MOVE_SELF                     = std.IN_MOVE_SELF
	IN_NONBLOCK                      = std.IN_NONBLOCK
	IN_ONESHOT                       = std.IN_ONESHOT
	IN_ONLYDIR                       = std.IN_ONLYDIR
	IN_OPEN                          = std.IN_OPEN
	IN_Q_OVERFLOW                    = std.IN_Q_OVERFLOW
	IN_UNMOUNT                       = std.IN_UNMOUNT
	IPPROTO_AH                       = std.IPPROTO_AH
	IPPROTO_COMP                     = std.IPPROTO_COMP
	IPPROTO_DCCP                     = std.IPPROTO_DCCP
	IPPROTO_DSTOPTS                  = std.IPPROTO_DSTOPTS
	IPPROTO_EGP                      = std.IPPROTO_EGP
	IPPROTO_ENCAP                    = std.IPPROTO_ENCAP
	IPPROTO_ESP                      = std.IPPROTO_ESP
	IPPROTO_FRAGMENT                 = std.IPPROTO_FRAGMENT
	IPPROTO_GRE                      = std.IPPROTO_GRE
	IPPROTO_HOPOPTS                  = std.IPPROTO_HOPOPTS
	IPPROTO_ICMP                     = std.IPPROTO_ICMP
	IPPROTO_ICMPV6                   = std.IPPROTO_ICMPV6
	IPPROTO_IDP                      = std.IPPROTO_IDP
	IPPROTO_IGMP                     = std.IPPROTO_IGMP
	IPPROTO_IP                       = std.IPPROTO_IP
	IPPROTO_IPIP                     = std.IPPROTO_IPIP
	IPPROTO_IPV6                     = std.IPPROTO_IPV6
	IPPROTO_MTP                      = std.IPPROTO_MTP
	IPPROTO_NONE                     = std.IPPROTO_NONE
	IPPROTO_PIM                      = std.IPPROTO_PIM
	IPPROTO_PUP                      = std.IPPROTO_PUP
	IPPROTO_RAW                      = std.IPPROTO_RAW
	IPPROTO_ROUTING                  = std.IPPROTO_ROUTING
	IPPROTO_RSVP                     = std.IPPROTO_RSVP
	IPPROTO_SCTP                     = std.IPPROTO_SCTP
	IPPROTO_TCP                      = std.IPPROTO_TCP
	IPPROTO_TP                       = std.IPPROTO_TP
	IPPROTO_UDP                      = std.IPPROTO_UDP
	IPPROTO_UDPLITE                  = std.IPPROTO_UDPLITE
	IPV6_2292DSTOPTS                 = std.IPV6_2292DSTOPTS
	IPV6_2292HOPLIMIT                = std.IPV6_2292HOPLIMIT
	IPV6_2292HOPOPTS                 = std.IPV6_2292HOPOPTS
	IPV6_2292PKTINFO                 = std.IPV6_2292PKTINFO
	IPV6_2292PKTOPTIONS              = std.IPV6_2292PKTOPTIONS
	IPV6_2292RTHDR                   = std.IPV6_2292RTHDR
	IPV6_ADDRFORM                    = std.IPV6_ADDRFORM
	IPV6_ADD_MEMBERSHIP              = std.IPV6_ADD_MEMBERSHIP
	IPV6_AUTHHDR                     = std.IPV6_AUTHHDR
	IPV6_CHECKSUM                    = std.IPV6_CHECKSUM
	IPV6_DROP_MEMBERSHIP             = std.IPV6_DROP_MEMBERSHIP
	IPV6_DSTOPTS                     = std.IPV6_DSTOPTS
	IPV6_HOPLIMIT                    = std.IPV6_HOPLIMIT
	IPV6_HOPOPTS                     = std.IPV6_HOPOPTS
	IPV6_IPSEC_POLICY                = std.IPV6_IPSEC_POLICY
	IPV6_JOIN_ANYCAST                = std.IPV6_JOIN_ANYCAST
	IPV6_JOIN_GROUP                  = std.IPV6_JOIN_GROUP
	IPV6_LEAVE_ANYCAST               = std.IPV6_LEAVE_ANYCAST
	IPV6_LEAVE_GROUP                 = std.IPV6_LEAVE_GROUP
	IPV6_MTU                         = std.IPV6_MTU
	IPV6_MTU_DISCOVER                = std.IPV6_MTU_DISCOVER
	IPV6_MULTICAST_HOPS              = std.IPV6_MULTICAST_HOPS
	IPV6_MULTICAST_IF                = std.IPV6_MULTICAST_IF
	IPV6_MULTICAST_LOOP              = std.IPV6_MULTICAST_LOOP
	IPV6_NEXTHOP                     = std.IPV6_NEXTHOP
	IPV6_PKTINFO                     = std.IPV6_PKTINFO
	IPV6_PMTUDISC_DO                 = std.IPV6_PMTUDISC_DO
	IPV6_PMTUDISC_DONT               = std.IPV6_PMTUDISC_DONT
	IPV6_PMTUDISC_PROBE              = std.IPV6_PMTUDISC_PROBE
	IPV6_PMTUDISC_WANT               = std.IPV6_PMTUDISC_WANT
	IPV6_RECVDSTOPTS                 = std.IPV6_RECVDSTOPTS
	IPV6_RECVERR                     = std.IPV6_RECVERR
	IPV6_RECVHOPLIMIT                = std.IPV6_RECVHOPLIMIT
	IPV6_RECVHOPOPTS                 = std.IPV6_RECVHOPOPTS
	IPV6_RECVPKTINFO                 = std.IPV6_RECVPKTINFO
	IPV6_RECVRTHDR                   = std.IPV6_RECVRTHDR
	IPV6_RECVTCLASS                  = std.IPV6_RECVTCLASS
	IPV6_ROUTER_ALERT                = std.IPV6_ROUTER_ALERT
	IPV6_RTHDR                       = std.IPV6_RTHDR
	IPV6_RTHDRDSTOPTS                = std.IPV6_RTHDRDSTOPTS
	IPV6_RTHDR_LOOSE                 = std.IPV6_RTHDR_LOOSE
	IPV6_RTHDR_STRICT                = std.IPV6_RTHDR_STRICT
	IPV6_RTHDR_TYPE_0                = std.IPV6_RTHDR_TYPE_0
	IPV6_RXDSTOPTS                   = std.IPV6_RXDSTOPTS
	IPV6_RXHOPOPTS                   = std.IPV6_RXHOPOPTS
	IPV6_TCLASS                      = std.IPV6_TCLASS
	IPV6_UNICAST_HOPS                = std.IPV6_UNICAST_HOPS
	IPV6_V6ONLY                      = std.IPV6_V6ONLY
	IPV6_XFRM_POLICY                 = std.IPV6_XFRM_POLICY
	IP_ADD_MEMBERSHIP                = std.IP_ADD_MEMBERSHIP
	IP_ADD_SOURCE_MEMBERSHIP         = std.IP_ADD_SOURCE_MEMBERSHIP
	IP_BLOCK_SOURCE                  = std.IP_BLOCK_SOURCE
	IP_DEFAULT_MULTICAST_LOOP        = std.IP_DEFAULT_MULTICAST_LOOP
	IP_DEFAULT_MULTICAST_TTL         = std.IP_DEFAULT_MULTICAST_TTL
	IP_DF                            = std.IP_DF
	IP_DROP_MEMBERSHIP               = std.IP_DROP_MEMBERSHIP
	IP_DROP_SOURCE_MEMBERSHIP        = std.IP_DROP_SOURCE_MEMBERSHIP
	IP_FREEBIND                      = std.IP_FREEBIND
	IP_HDRINCL                       = std.IP_HDRINCL
	IP_IPSEC_POLICY                  = std.IP_IPSEC_POLICY
	IP_MAXPACKET                     = std.IP_MAXPACKET
	IP_MAX_MEMBERSHIPS               = std.IP_MAX_MEMBERSHIPS
	IP_MF                            = std.IP_MF
	IP_MINTTL                        = std.IP_MINTTL
	IP_MSFILTER                      = std.IP_MSFILTER
	IP_MSS                           = std.IP_MSS
	IP_MTU                           = std.IP_MTU
	IP_MTU_DISCOVER                  = std.IP_MTU_DISCOVER
	IP_MULTICAST_IF                  = std.IP_MULTICAST_IF
	IP_MULTICAST_LOOP                = std.IP_MULTICAST_LOOP
	IP_MULTICAST_TTL                 = std.IP_MULTICAST_TTL
	IP_OFFMASK                       = std.IP_OFFMASK
	IP_OPTIONS                       = std.IP_OPTIONS
	IP_ORIGDSTADDR                   = std.IP_ORIGDSTADDR
	IP_PASSSEC                       = std.IP_PASSSEC
	IP_PKTINFO                       = std.IP_PKTINFO
	IP_PKTOPTIONS                    = std.IP_PKTOPTIONS
	IP_PMTUDISC                      = std.IP_PMTUDISC
	IP_PMTUDISC_DO                   = std.IP_PMTUDISC_DO
	IP_PMTUDISC_DONT                 = std.IP_PMTUDISC_DONT
	IP_PMTUDISC_PROBE                = std.IP_PMTUDISC_PROBE
	IP_PMTUDISC_WANT                 = std.IP_PMTUDISC_WANT
	IP_RECVERR                       = std.IP_RECVERR
	IP_RECVOPTS                      = std.IP_RECVOPTS
	IP_RECVORIGDSTADDR               = std.IP_RECVORIGDSTADDR
	IP_RECVRETOPTS                   = std.IP_RECVRETOPTS
	IP_RECVTOS                       = std.IP_RECVTOS
	IP_RECVTTL                       = std.IP_RECVTTL
	IP_RETOPTS                       = std.IP_RETOPTS
	IP_RF                            = std.IP_RF
	IP_ROUTER_ALERT                  = std.IP_ROUTER_ALERT
	IP_TOS                           = std.IP_TOS
	IP_TRANSPARENT                   = std.IP_TRANSPARENT
	IP_TTL                           = std.IP_TTL
	IP_UNBLOCK_SOURCE                = std.IP_UNBLOCK_SOURCE
	IP_XFRM_POLICY                   = std.IP_XFRM_POLICY
	ISIG                             = std.ISIG
	ISTRIP                           = std.ISTRIP
	IUCLC                            = std.IUCLC
	IUTF8                            = std.IUTF8
	IXANY                            = std.IXANY
	IXOFF                            = std.IXOFF
	IXON                             = std.IXON
	ImplementsGetwd                  = std.ImplementsGetwd
	LINUX_REBOOT_CMD_CAD_OFF         = std.LINUX_REBOOT_CMD_CAD_OFF
	LINUX_REBOOT_CMD_CAD_ON          = std.LINUX_REBOOT_CMD_CAD_ON
	LINUX_REBOOT_CMD_HALT            = std.LINUX_REBOOT_CMD_HALT
	LINUX_REBOOT_CMD_KEXEC           = std.LINUX_REBOOT_CMD_KEXEC
	LINUX_REBOOT_CMD_POWER_OFF       = std.LINUX_REBOOT_CMD_POWER_OFF
	LINUX_REBOOT_CMD_RESTART         = std.LINUX_REBOOT_CMD_RESTART
	LINUX_REBOOT_CMD_RESTART2        = std.LINUX_REBOOT_CMD_RESTART2
	LINUX_REBOOT_CMD_SW_SUSPEND      = std.LINUX_REBOOT_CMD_SW_SUSPEND
	LINUX_REBOOT_MAGIC1              = std.LINUX_REBOOT_MAGIC1
	LINUX_REBOOT_MAGIC2              = std.LINUX_REBOOT_MAGIC2
	LOCK_EX                          = std.LOCK_EX
	LOCK_NB                          = std.LOCK_NB
	LOCK_SH                          = std.LOCK_SH
	LOCK_UN                          = std.LOCK_UN
	MADV_DOFORK                      = std.MADV_DOFORK
	MADV_DONTFORK                    = std.MADV_DONTFORK
	MADV_DONTNEED                    = std.MADV_DONTNEED
	MADV_HUGEPAGE                    = std.MADV_HUGEPAGE
	MADV_HWPOISON                    = std.MADV_HWPOISON
	MADV_MERGEABLE                   = std.MADV_MERGEABLE
	MADV_NOHUGEPAGE                  = std.MADV_NOHUGEPAGE
	MADV_NORMAL                      = std.MADV_NORMAL
	MADV_RANDOM                      = std.MADV_RANDOM
	MADV_REMOVE                      = std.MADV_REMOVE
	MADV_SEQUENTIAL                  = std.MADV_SEQUENTIAL
	MADV_UNMERGEABLE                 = std.MADV_UNMERGEABLE
	MADV_WILLNEED                    = std.MADV_WILLNEED
	MAP_32BIT                        = std.MAP_32BIT
	MAP_ANON                         = std.MAP_ANON
	MAP_ANONYMOUS                    = std.MAP_ANONYMOUS
	MAP_DENYWRITE                    = std.MAP_DENYWRITE
	MAP_EXECUTABLE                   = std.MAP_EXECUTABLE
	MAP_FILE                         = std.MAP_FILE
	MAP_FIXED                        = std.MAP_FIXED
	MAP_GROWSDOWN                    = std.MAP_GROWSDOWN
	MAP_HUGETLB                      = std.MAP_HUGETLB
	MAP_LOCKED                       = std.MAP_LOCKED
	MAP_NONBLOCK                     = std.MAP_NONBLOCK
	MAP_NORESERVE                    = std.MAP_NORESERVE
	MAP_POPULATE                     = std.MAP_POPULATE
	MAP_PRIVATE                      = std.MAP_PRIVATE
	MAP_SHARED                       = std.MAP_SHARED
	MAP_STACK                        = std.MAP_STACK
	MAP_TYPE                         = std.MAP_TYPE
	MCL_CURRENT                      = std.MCL_CURRENT
	MCL_FUTURE                       = std.MCL_FUTURE
	MNT_DETACH                       = std.MNT_DETACH
	MNT_EXPIRE                       = std.MNT_EXPIRE
	MNT_FORCE                        = std.MNT_FORCE
	MSG_CMSG_CLOEXEC                 = std.MSG_CMSG_CLOEXEC
	MSG_CONFIRM                      = std.MSG_CONFIRM
	MSG_CTRUNC                       = std.MSG_CTRUNC
	MSG_DONTROUTE                    = std.MSG_DONTROUTE
	MSG_DONTWAIT                     = std.MSG_DONTWAIT
	MSG_EOR                          = std.MSG_EOR
	MSG_ERRQUEUE                     = std.MSG_ERRQUEUE
	MSG_FASTOPEN                     = std.MSG_FASTOPEN
	MSG_FIN                          = std.MSG_FIN
	MSG_MORE                         = std.MSG_MORE
	MSG_NOSIGNAL                     = std.MSG_NOSIGNAL
	MSG_OOB                          = std.MSG_OOB
	MSG_PEEK                         = std.MSG_PEEK
	MSG_PROXY                        = std.MSG_PROXY
	MSG_RST                          = std.MSG_RST
	MSG_SYN                          = std.MSG_SYN
	MSG_TRUNC                        = std.MSG_TRUNC
	MSG_TRYHARD                      = std.MSG_TRYHARD
	MSG_WAITALL                      = std.MSG_WAITALL
	MSG_WAITFORONE                   = std.MSG_WAITFORONE
	MS_ACTIVE                        = std.MS_ACTIVE
	MS_ASYNC                         = std.MS_ASYNC
	MS_BIND                          = std.MS_BIND
	MS_DIRSYNC                       = std.MS_DIRSYNC
	MS_INVALIDATE                    = std.MS_INVALIDATE
	MS_I_VERSION                     = std.MS_I_VERSION
	MS_KERNMOUNT                     = std.MS_KERNMOUNT
	MS_MANDLOCK                      = std.MS_MANDLOCK
	MS_MGC_MSK                       = std.MS_MGC_MSK
	MS_MGC_VAL                       = std.MS_MGC_VAL
	MS_MOVE                          = std.MS_MOVE
	MS_NOATIME                       = std.MS_NOATIME
	MS_NODEV                         = std.MS_NODEV
	MS_NODIRATIME                    = std.MS_NODIRATIME
	MS_NOEXEC                        = std.MS_NOEXEC
	MS_NOSUID                        = std.MS_NOSUID
	MS_NOUSER                        = std.MS_NOUSER
	MS_POSIXACL                      = std.MS_POSIXACL
	MS_PRIVATE                       = std.MS_PRIVATE
	MS_RDONLY                        = std.MS_RDONLY
	MS_REC                           = std.MS_REC
	MS_RELATIME                      = std.MS_RELATIME
	MS_REMOUNT                       = std.MS_REMOUNT
	MS_RMT_MASK                      = std.MS_RMT_MASK
	MS_SHARED                        = std.MS_SHARED
	MS_SILENT                        = std.MS_SILENT
	MS_SLAVE                         = std.MS_SLAVE
	MS_STRICTATIME                   = std.MS_STRICTATIME
	MS_SYNC                          = std.MS_SYNC
	MS_SYNCHRONOUS                   = std.MS_SYNCHRONOUS
	MS_UNBINDABLE                    = std.MS_UNBINDABLE
	NAME_MAX                         = std.NAME_MAX
	NETLINK_ADD_MEMBERSHIP           = std.NETLINK_ADD_MEMBERSHIP
	NETLINK_AUDIT                    = std.NETLINK_AUDIT
	NETLINK_BROADCAST_ERROR          = std.NETLINK_BROADCAST_ERROR
	NETLINK_CONNECTOR                = std.NETLINK_CONNECTOR
	NETLINK_DNRTMSG                  = std.NETLINK_DNRTMSG
	NETLINK_DROP_MEMBERSHIP          = std.NETLINK_DROP_MEMBERSHIP
	NETLINK_ECRYPTFS                 = std.NETLINK_ECRYPTFS
	NETLINK_FIB_LOOKUP               = std.NETLINK_FIB_LOOKUP
	NETLINK_FIREWALL                 = std.NETLINK_FIREWALL
	NETLINK_GENERIC                  = std.NETLINK_GENERIC
	NETLINK_INET_DIAG                = std.NETLINK_INET_DIAG
	NETLINK_IP6_FW                   = std.NETLINK_IP6_FW
	NETLINK_ISCSI                    = std.NETLINK_ISCSI
	NETLINK_KOBJECT_UEVENT           = std.NETLINK_KOBJECT_UEVENT
	NETLINK_NETFILTER                = std.NETLINK_NETFILTER
	NETLINK_NFLOG                    = std.NETLINK_NFLOG
	NETLINK_NO_ENOBUFS               = std.NETLINK_NO_ENOBUFS
	NETLINK_PKTINFO                  = std.NETLINK_PKTINFO
	NETLINK_ROUTE                    = std.NETLINK_ROUTE
	NETLINK_SCSITRANSPORT            = std.NETLINK_SCSITRANSPORT
	NETLINK_SELINUX                  = std.NETLINK_SELINUX
	NETLINK_UNUSED                   = std.NETLINK_UNUSED
	NETLINK_USERSOCK                 = std.NETLINK_USERSOCK
	NETLINK_XFRM                     = std.NETLINK_XFRM
	NLA_ALIGNTO                      = std.NLA_ALIGNTO
	NLA_F_NESTED                     = std.NLA_F_NESTED
	NLA_F_NET_BYTEORDER              = std.NLA_F_NET_BYTEORDER
	NLA_HDRLEN                       = std.NLA_HDRLEN
	NLMSG_ALIGNTO                    = std.NLMSG_ALIGNTO
	NLMSG_DONE                       = std.NLMSG_DONE
	NLMSG_ERROR                      = std.NLMSG_ERROR
	NLMSG_HDRLEN                     = std.NLMSG_HDRLEN
	NLMSG_MIN_TYPE                   = std.NLMSG_MIN_TYPE
	NLMSG_NOOP                       = std.NLMSG_NOOP
	NLMSG_OVERRUN                    = std.NLMSG_OVERRUN
	NLM_F_ACK                        = std.NLM_F_ACK
	NLM_F_APPEND                     = std.NLM_F_APPEND
	NLM_F_ATOMIC                     = std.NLM_F_ATOMIC
	NLM_F_CREATE                     = std.NLM_F_CREATE
	NLM_F_DUMP                       = std.NLM_F_DUMP
	NLM_F_ECHO                       = std.NLM_F_ECHO
	NLM_F_EXCL                       = std.NLM_F_EXCL
	NLM_F_MATCH                      = std.NLM_F_MATCH
	NLM_F_MULTI                      = std.NLM_F_MULTI
	NLM_F_REPLACE                    = std.NLM_F_REPLACE
	NLM_F_REQUEST                    = std.NLM_F_REQUEST
	NLM_F_ROOT                       = std.NLM_F_ROOT
	NOFLSH                           = std.NOFLSH
	OCRNL                            = std.OCRNL
	OFDEL                            = std.OFDEL
	OFILL                            = std.OFILL
	OLCUC                            = std.OLCUC
	ONLCR                            = std.ONLCR
	ONLRET                           = std.ONLRET
	ONOCR                            = std.ONOCR
	OPOST                            = std.OPOST
	O_ACCMODE                        = std.O_ACCMODE
	O_APPEND                         = std.O_APPEND
	O_ASYNC                          = std.O_ASYNC
	O_CLOEXEC                        = std.O_CLOEXEC
	O_CREAT                          = std.O_CREAT
	O_DIRECT                         = std.O_DIRECT
	O_DIRECTORY                      = std.O_DIRECTORY
	O_DSYNC                          = std.O_DSYNC
	O_EXCL                           = std.O_EXCL
	O_FSYNC                          = std.O_FSYNC
	O_LARGEFILE                      = std.O_LARGEFILE
	O_NDELAY                         = std.O_NDELAY
	O_NOATIME                        = std.O_NOATIME
	O_NOCTTY                         = std.O_NOCTTY
	O_NOFOLLOW                       = std.O_NOFOLLOW
	O_NONBLOCK                       = std.O_NONBLOCK
	O_RDONLY                         = std.O_RDONLY
	O_RDWR                           = std.O_RDWR
	O_RSYNC                          = std.O_RSYNC
	O_SYNC                           = std.O_SYNC
	O_TRUNC                          = std.O_TRUNC
	O_WRONLY                         = std.O_WRONLY
	PACKET_ADD_MEMBERSHIP            = std.PACKET_ADD_MEMBERSHIP
	PACKET_BROADCAST                 = std.PACKET_BROADCAST
	PACKET_DROP_MEMBERSHIP           = std.PACKET_DROP_MEMBERSHIP
	PACKET_FASTROUTE                 = std.PACKET_FASTROUTE
	PACKET_HOST                      = std.PACKET_HOST
	PACKET_LOOPBACK                  = std.PACKET_LOOPBACK
	PACKET_MR_ALLMULTI               = std.PACKET_MR_ALLMULTI
	PACKET_MR_MULTICAST              = std.PACKET_MR_MULTICAST
	PACKET_MR_PROMISC                = std.PACKET_MR_PROMISC
	PACKET_MULTICAST                 = std.PACKET_MULTICAST
	PACKET_OTHERHOST                 = std.PACKET_OTHERHOST
	PACKET_OUTGOING                  = std.PACKET_OUTGOING
	PACKET_RECV_OUTPUT               = std.PACKET_RECV_OUTPUT
	PACKET_RX_RING                   = std.PACKET_RX_RING
	PACKET_STATISTICS                = std.PACKET_STATISTICS
	PARENB                           = std.PARENB
	PARMRK                           = std.PARMRK
	PARODD                           = std.PARODD
	PENDIN                           = std.PENDIN
	PRIO_PGRP                        = std.PRIO_PGRP
	PRIO_PROCESS                     = std.PRIO_PROCESS
	PRIO_USER                        = std.PRIO_USER
	PROT_EXEC                        = std.PROT_EXEC
	PROT_GROWSDOWN                   = std.PROT_GROWSDOWN
	PROT_GROWSUP                     = std.PROT_GROWSUP
	PROT_NONE                        = std.PROT_NONE
	PROT_READ                        = std.PROT_READ
	PROT_WRITE                       = std.PROT_WRITE
	PR_CAPBSET_DROP                  = std.PR_CAPBSET_DROP
	PR_CAPBSET_READ                  = std.PR_CAPBSET_READ
	PR_ENDIAN_BIG                    = std.PR_ENDIAN_BIG
	PR_ENDIAN_LITTLE                 = std.PR_ENDIAN_LITTLE
	PR_ENDIAN_PPC_LITTLE             = std.PR_ENDIAN_PPC_LITTLE
	PR_FPEMU_NOPRINT                 = std.PR_FPEMU_NOPRINT
	PR_FPEMU_SIGFPE                  = std.PR_FPEMU_SIGFPE
	PR_FP_EXC_ASYNC                  = std.PR_FP_EXC_ASYNC
	PR_FP_EXC_DISABLED               = std.PR_FP_EXC_DISABLED
	PR_FP_EXC_DIV                    = std.PR_FP_EXC_DIV
	PR_FP_EXC_INV                    = std.PR_FP_EXC_INV
	PR_FP_EXC_NONRECOV               = std.PR_FP_EXC_NONRECOV
	PR_FP_EXC_OVF                    = std.PR_FP_EXC_OVF
	PR_FP_EXC_PRECISE                = std.PR_FP_EXC_PRECISE
	PR_FP_EXC_RES                    = std.PR_FP_EXC_RES
	PR_FP_EXC_SW_ENABLE              = std.PR_FP_EXC_SW_ENABLE
	PR_FP_EXC_UND                    = std.PR_FP_EXC_UND
	PR_GET_DUMPABLE                  = std.PR_GET_DUMPABLE
	PR_GET_ENDIAN                    = std.PR_GET_ENDIAN
	PR_GET_FPEMU                     = std.PR_GET_FPEMU
	PR_GET_FPEXC                     = std.PR_GET_FPEXC
	PR_GET_KEEPCAPS                  = std.PR_GET_KEEPCAPS
	PR_GET_NAME                      = std.PR_GET_NAME
	PR_GET_PDEATHSIG                 = std.PR_GET_PDEATHSIG
	PR_GET_SECCOMP                   = std.PR_GET_SECCOMP
	PR_GET_SECUREBITS                = std.PR_GET_SECUREBITS
	PR_GET_TIMERSLACK                = std.PR_GET_TIMERSLACK
	PR_GET_TIMING                    = std.PR_GET_TIMING
	PR_GET_TSC                       = std.PR_GET_TSC
	PR_GET_UNALIGN                   = std.PR_GET_UNALIGN
	PR_MCE_KILL                      = std.PR_MCE_KILL
	PR_MCE_KILL_CLEAR                = std.PR_MCE_KILL_CLEAR
	PR_MCE_KILL_DEFAULT              = std.PR_MCE_KILL_DEFAULT
	PR_MCE_KILL_EARLY                = std.PR_MCE_KILL_EARLY
	PR_MCE_KILL_GET                  = std.PR_MCE_KILL_GET
	PR_MCE_KILL_LATE                 = std.PR_MCE_KILL_LATE
	PR_MCE_KILL_SET                  = std.PR_MCE_KILL_SET
	PR_SET_DUMPABLE                  = std.PR_SET_DUMPABLE
	PR_SET_ENDIAN                    = std.PR_SET_ENDIAN
	PR_SET_FPEMU                     = std.PR_SET_FPEMU
	PR_SET_FPEXC                     = std.PR_SET_FPEXC
	PR_SET_KEEPCAPS                  = std.PR_SET_KEEPCAPS
	PR_SET_NAME                      = std.PR_SET_NAME
	PR_SET_PDEATHSIG                 = std.PR_SET_PDEATHSIG
	PR_SET_PTRACER                   = std.PR_SET_PTRACER
	PR_SET_SECCOMP                   = std.PR_SET_SECCOMP
	PR_SET_SECUREBITS                = std.PR_SET_SECUREBITS
	PR_SET_TIMERSLACK                = std.PR_SET_TIMERSLACK
	PR_SET_TIMING                    = std.PR_SET_TIMING
	PR_SET_TSC                       = std.PR_SET_TSC
	PR_SET_UNALIGN                   = std.PR_SET_UNALIGN
	PR_TASK_PERF_EVENTS_DISABLE      = std.PR_TASK_PERF_EVENTS_DISABLE
	PR_TASK_PERF_EVENTS_ENABLE       = std.PR_TASK_PERF_EVENTS_ENABLE
	PR_TIMING_STATISTICAL            = std.PR_TIMING_STATISTICAL
	PR_TIMING_TIMESTAMP              = std.PR_TIMING_TIMESTAMP
	PR_TSC_ENABLE                    = std.PR_TSC_ENABLE
	PR_TSC_SIGSEGV                   = std.PR_TSC_SIGSEGV
	PR_UNALIGN_NOPRINT               = std.PR_UNALIGN_NOPRINT
	PR_UNALIGN_SIGBUS                = std.PR_UNALIGN_SIGBUS
	PTRACE_ARCH_PRCTL                = std.PTRACE_ARCH_PRCTL
	PTRACE_ATTACH                    = std.PTRACE_ATTACH
	PTRACE_CONT                      = std.PTRACE_CONT
	PTRACE_DETACH                    = std.PTRACE_DETACH
	PTRACE_EVENT_CLONE               = std.PTRACE_EVENT_CLONE
	PTRACE_EVENT_EXEC                = std.PTRACE_EVENT_EXEC
	PTRACE_EVENT_EXIT                = std.PTRACE_EVENT_EXIT
	PTRACE_EVENT_FORK                = std.PTRACE_EVENT_FORK
	PTRACE_EVENT_VFORK               = std.PTRACE_EVENT_VFORK
	PTRACE_EVENT_VFORK_DONE          = std.PTRACE_EVENT_VFORK_DONE
	PTRACE_GETEVENTMSG               = std.PTRACE_GETEVENTMSG
	PTRACE_GETFPREGS                 = std.PTRACE_GETFPREGS
	PTRACE_GETFPXREGS                = std.PTRACE_GETFPXREGS
	PTRACE_GETREGS                   = std.PTRACE_GETREGS
	PTRACE_GETREGSET                 = std.PTRACE_GETREGSET
	PTRACE_GETSIGINFO                = std.PTRACE_GETSIGINFO
	PTRACE_GET_THREAD_AREA           = std.PTRACE_GET_THREAD_AREA
	PTRACE_KILL                      = std.PTRACE_KILL
	PTRACE_OLDSETOPTIONS             = std.PTRACE_OLDSETOPTIONS
	PTRACE_O_MASK                    = std.PTRACE_O_MASK
	PTRACE_O_TRACECLONE              = std.PTRACE_O_TRACECLONE
	PTRACE_O_TRACEEXEC               = std.PTRACE_O_TRACEEXEC
	PTRACE_O_TRACEEXIT               = std.PTRACE_O_TRACEEXIT
	PTRACE_O_TRACEFORK               = std.PTRACE_O_TRACEFORK
	PTRACE_O_TRACESYSGOOD            = std.PTRACE_O_TRACESYSGOOD
	PTRACE_O_TRACEVFORK              = std.PTRACE_O_TRACEVFORK
	PTRACE_O_TRACEVFORKDONE          = std.PTRACE_O_TRACEVFORKDONE
	PTRACE_PEEKDATA                  = std.PTRACE_PEEKDATA
	PTRACE_PEEKTEXT                  = std.PTRACE_PEEKTEXT
	PTRACE_PEEKUSR                   = std.PTRACE_PEEKUSR
	PTRACE_POKEDATA                  = std.PTRACE_POKEDATA
	PTRACE_POKETEXT                  = std.PTRACE_POKETEXT
	PTRACE_POKEUSR                   = std.PTRACE_POKEUSR
	PTRACE_SETFPREGS                 = std.PTRACE_SETFPREGS
	PTRACE_SETFPXREGS                = std.PTRACE_SETFPXREGS
	PTRACE_SETOPTIONS                = std.PTRACE_SETOPTIONS
	PTRACE_SETREGS                   = std.PTRACE_SETREGS
	PTRACE_SETREGSET                 = std.PTRACE_SETREGSET
	PTRACE_SETSIGINFO                = std.PTRACE_SETSIGINFO
	PTRACE_SET_THREAD_AREA           = std.PTRACE_SET_THREAD_AREA
	PTRACE_SINGLEBLOCK               = std.PTRACE_SINGLEBLOCK
	PTRACE_SINGLESTEP                = std.PTRACE_SINGLESTEP
	PTRACE_SYSCALL                   = std.PTRACE_SYSCALL
	PTRACE_SYSEMU                    = std.PTRACE_SYSEMU
	PTRACE_SYSEMU_SINGLESTEP         = std.PTRACE_SYSEMU_SINGLESTEP
	PTRACE_TRACEME                   = std.PTRACE_TRACEME
	PathMax                          = std.PathMax
	RLIMIT_AS                        = std.RLIMIT_AS
	RLIMIT_CORE                      = std.RLIMIT_CORE
	RLIMIT_CPU                       = std.RLIMIT_CPU
	RLIMIT_DATA                      = std.RLIMIT_DATA
	RLIMIT_FSIZE                     = std.RLIMIT_FSIZE
	RLIMIT_NOFILE                    = std.RLIMIT_NOFILE
	RLIMIT_STACK                     = std.RLIMIT_STACK
	RLIM_INFINITY                    = std.RLIM_INFINITY
	RTAX_ADVMSS                      = std.RTAX_ADVMSS
	RTAX_CWND                        = std.RTAX_CWND
	RTAX_FEATURES                    = std.RTAX_FEATURES
	RTAX_FEATURE_ALLFRAG             = std.RTAX_FEATURE_ALLFRAG
	RTAX_FEATURE_ECN                 = std.RTAX_FEATURE_ECN
	RTAX_FEATURE_SACK                = std.RTAX_FEATURE_SACK
	RTAX_FEATURE_TIMESTAMP           = std.RTAX_FEATURE_TIMESTAMP
	RTAX_HOPLIMIT                    = std.RTAX_HOPLIMIT
	RTAX_INITCWND                    = std.RTAX_INITCWND
	RTAX_INITRWND                    = std.RTAX_INITRWND
	RTAX_LOCK                        = std.RTAX_LOCK
	RTAX_MAX                         = std.RTAX_MAX
	RTAX_MTU                         = std.RTAX_MTU
	RTAX_REORDERING                  = std.RTAX_REORDERING
	RTAX_RTO_MIN                     = std.RTAX_RTO_MIN
	RTAX_RTT                         = std.RTAX_RTT
	RTAX_RTTVAR                      = std.RTAX_RTTVAR
	RTAX_SSTHRESH                    = std.RTAX_SSTHRESH
	RTAX_UNSPEC                      = std.RTAX_UNSPEC
	RTAX_WINDOW                      = std.RTAX_WINDOW
	RTA_ALIGNTO                      = std.RTA_ALIGNTO
	RTA_CACHEINFO                    = std.RTA_CACHEINFO
	RTA_DST                          = std.RTA_DST
	RTA_FLOW                         = std.RTA_FLOW
	RTA_GATEWAY                      = std.RTA_GATEWAY
	RTA_IIF                          = std.RTA_IIF
	RTA_MAX                          = std.RTA_MAX
	RTA_METRICS                      = std.RTA_METRICS
	RTA_MULTIPATH                    = std.RTA_MULTIPATH
	RTA_OIF                          = std.RTA_OIF
	RTA_PREFSRC                      = std.RTA_PREFSRC
	RTA_PRIORITY                     = std.RTA_PRIORITY
	RTA_SRC                          = std.RTA_SRC
	RTA_TABLE                        = std.RTA_TABLE
	RTA_UNSPEC                       = std.RTA_UNSPEC
	RTCF_DIRECTSRC                   = std.RTCF_DIRECTSRC
	RTCF_DOREDIRECT                  = std.RTCF_DOREDIRECT
	RTCF_LOG                         = std.RTCF_LOG
	RTCF_MASQ                        = std.RTCF_MASQ
	RTCF_NAT                         = std.RTCF_NAT
	RTCF_VALVE                       = std.RTCF_VALVE
	RTF_ADDRCLASSMASK                = std.RTF_ADDRCLASSMASK
	RTF_ADDRCONF                     = std.RTF_ADDRCONF
	RTF_ALLONLINK                    = std.RTF_ALLONLINK
	RTF_BROADCAST                    = std.RTF_BROADCAST
	RTF_CACHE                        = std.RTF_CACHE
	RTF_DEFAULT                      = std.RTF_DEFAULT
	RTF_DYNAMIC                      = std.RTF_DYNAMIC
	RTF_FLOW                         = std.RTF_FLOW
	RTF_GATEWAY                      = std.RTF_GATEWAY
	RTF_HOST                         = std.RTF_HOST
	RTF_INTERFACE                    = std.RTF_INTERFACE
	RTF_IRTT                         = std.RTF_IRTT
	RTF_LINKRT                       = std.RTF_LINKRT
	RTF_LOCAL                        = std.RTF_LOCAL
	RTF_MODIFIED                     = std.RTF_MODIFIED
	RTF_MSS                          = std.RTF_MSS
	RTF_MTU                          = std.RTF_MTU
	RTF_MULTICAST                    = std.RTF_MULTICAST
	RTF_NAT                          = std.RTF_NAT
	RTF_NOFORWARD                    = std.RTF_NOFORWARD
	RTF_NONEXTHOP                    = std.RTF_NONEXTHOP
	RTF_NOPMTUDISC                   = std.RTF_NOPMTUDISC
	RTF_POLICY                       = std.RTF_POLICY
	RTF_REINSTATE                    = std.RTF_REINSTATE
	RTF_REJECT                       = std.RTF_REJECT
	RTF_STATIC                       = std.RTF_STATIC
	RTF_THROW                        = std.RTF_THROW
	RTF_UP                           = std.RTF_UP
	RTF_WINDOW                       = std.RTF_WINDOW
	RTF_XRESOLVE                     = std.RTF_XRESOLVE
	RTM_BASE                         = std.RTM_BASE
	RTM_DELACTION                    = std.RTM_DELACTION
	RTM_DELADDR                      = std.RTM_DELADDR
	RTM_DELADDRLABEL                 = std.RTM_DELADDRLABEL
	RTM_DELLINK                      = std.RTM_DELLINK
	RTM_DELNEIGH                     = std.RTM_DELNEIGH
	RTM_DELQDISC                     = std.RTM_DELQDISC
	RTM_DELROUTE                     = std.RTM_DELROUTE
	RTM_DELRULE                      = std.RTM_DELRULE
	RTM_DELTCLASS                    = std.RTM_DELTCLASS
	RTM_DELTFILTER                   = std.RTM_DELTFILTER
	RTM_F_CLONED                     = std.RTM_F_CLONED
	RTM_F_EQUALIZE                   = std.RTM_F_EQUALIZE
	RTM_F_NOTIFY                     = std.RTM_F_NOTIFY
	RTM_F_PREFIX                     = std.RTM_F_PREFIX
	RTM_GETACTION                    = std.RTM_GETACTION
	RTM_GETADDR                      = std.RTM_GETADDR
	RTM_GETADDRLABEL                 = std.RTM_GETADDRLABEL
	RTM_GETANYCAST                   = std.RTM_GETANYCAST
	RTM_GETDCB                       = std.RTM_GETDCB
	RTM_GETLINK                      = std.RTM_GETLINK
	RTM_GETMULTICAST                 = std.RTM_GETMULTICAST
	RTM_GETNEIGH                     = std.RTM_GETNEIGH
	RTM_GETNEIGHTBL                  = std.RTM_GETNEIGHTBL
	RTM_GETQDISC                     = std.RTM_GETQDISC
	RTM_GETROUTE                     = std.RTM_GETROUTE
	RTM_GETRULE                      = std.RTM_GETRULE
	RTM_GETTCLASS                    = std.RTM_GETTCLASS
	RTM_GETTFILTER                   = std.RTM_GETTFILTER
	RTM_MAX                          = std.RTM_MAX
	RTM_NEWACTION                    = std.RTM_NEWACTION
	RTM_NEWADDR                      = std.RTM_NEWADDR
	RTM_NEWADDRLABEL                 = std.RTM_NEWADDRLABEL
	RTM_NEWLINK                      = std.RTM_NEWLINK
	RTM_NEWNDUSEROPT                 = std.RTM_NEWNDUSEROPT
	RTM_NEWNEIGH                     = std.RTM_NEWNEIGH
	RTM_NEWNEIGHTBL                  = std.RTM_NEWNEIGHTBL
	RTM_NEWPREFIX                    = std.RTM_NEWPREFIX
	RTM_NEWQDISC                     = std.RTM_NEWQDISC
	RTM_NEWROUTE                     = std.RTM_NEWROUTE
	RTM_NEWRULE                      = std.RTM_NEWRULE
	RTM_NEWTCLASS                    = std.RTM_NEWTCLASS
	RTM_NEWTFILTER                   = std.RTM_NEWTFILTER
	RTM_NR_FAMILIES                  = std.RTM_NR_FAMILIES
	RTM_NR_MSGTYPES                  = std.RTM_NR_MSGTYPES
	RTM_SETDCB                       = std.RTM_SETDCB
	RTM_SETLINK                      = std.RTM_SETLINK
	RTM_SETNEIGHTBL                  = std.RTM_SETNEIGHTBL
	RTNH_ALIGNTO                     = std.RTNH_ALIGNTO
	RTNH_F_DEAD                      = std.RTNH_F_DEAD
	RTNH_F_ONLINK                    = std.RTNH_F_ONLINK
	RTNH_F_PERVASIVE                 = std.RTNH_F_PERVASIVE
	RTNLGRP_IPV4_IFADDR              = std.RTNLGRP_IPV4_IFADDR
	RTNLGRP_IPV4_MROUTE              = std.RTNLGRP_IPV4_MROUTE
	RTNLGRP_IPV4_ROUTE               = std.RTNLGRP_IPV4_ROUTE
	RTNLGRP_IPV4_RULE                = std.RTNLGRP_IPV4_RULE
	RTNLGRP_IPV6_IFADDR              = std.RTNLGRP_IPV6_IFADDR
	RTNLGRP_IPV6_IFINFO              = std.RTNLGRP_IPV6_IFINFO
	RTNLGRP_IPV6_MROUTE              = std.RTNLGRP_IPV6_MROUTE
	RTNLGRP_IPV6_PREFIX              = std.RTNLGRP_IPV6_PREFIX
	RTNLGRP_IPV6_ROUTE               = std.RTNLGRP_IPV6_ROUTE
	RTNLGRP_IPV6_RULE                = std.RTNLGRP_IPV6_RULE
	RTNLGRP_LINK                     = std.RTNLGRP_LINK
	RTNLGRP_ND_USEROPT               = std.RTNLGRP_ND_USEROPT
	RTNLGRP_NEIGH                    = std.RTNLGRP_NEIGH
	RTNLGRP_NONE                     = std.RTNLGRP_NONE
	RTNLGRP_NOTIFY                   = std.RTNLGRP_NOTIFY
	RTNLGRP_TC                       = std.RTNLGRP_TC
	RTN_ANYCAST                      = std.RTN_ANYCAST
	RTN_BLACKHOLE                    = std.RTN_BLACKHOLE
	RTN_BROADCAST                    = std.RTN_BROADCAST
	RTN_LOCAL                        = std.RTN_LOCAL
	RTN_MAX                          = std.RTN_MAX
	RTN_MULTICAST                    = std.RTN_MULTICAST
	RTN_NAT                          = std.RTN_NAT
	RTN_PROHIBIT                     = std.RTN_PROHIBIT
	RTN_THROW                        = std.RTN_THROW
	RTN_UNICAST                      = std.RTN_UNICAST
	RTN_UNREACHABLE                  = std.RTN_UNREACHABLE
	RTN_UNSPEC                       = std.RTN_UNSPEC
	RTN_XRESOLVE                     = std.RTN_XRESOLVE
	RTPROT_BIRD                      = std.RTPROT_BIRD
	RTPROT_BOOT                      = std.RTPROT_BOOT
	RTPROT_DHCP                      = std.RTPROT_DHCP
	RTPROT_DNROUTED                  = std.RTPROT_DNROUTED
	RTPROT_GATED                     = std.RTPROT_GATED
	RTPROT_KERNEL                    = std.RTPROT_KERNEL
	RTPROT_MRT                       = std.RTPROT_MRT
	RTPROT_NTK                       = std.RTPROT_NTK
	RTPROT_RA                        = std.RTPROT_RA
	RTPROT_REDIRECT                  = std.RTPROT_REDIRECT
	RTPROT_STATIC                    = std.RTPROT_STATIC
	RTPROT_UNSPEC                    = std.RTPROT_UNSPEC
	RTPROT_XORP                      = std.RTPROT_XORP
	RTPROT_ZEBRA                     = std.RTPROT_ZEBRA
	RT_CLASS_DEFAULT                 = std.RT_CLASS_DEFAULT
	RT_CLASS_LOCAL                   = std.RT_CLASS_LOCAL
	RT_CLASS_MAIN                    = std.RT_CLASS_MAIN
	RT_CLASS_MAX                     = std.RT_CLASS_MAX
	RT_CLASS_UNSPEC                  = std.RT_CLASS_UNSPEC
	RT_SCOPE_HOST                    = std.RT_SCOPE_HOST
	RT_SCOPE_LINK                    = std.RT_SCOPE_LINK
	RT_SCOPE_NOWHERE                 = std.RT_SCOPE_NOWHERE
	RT_SCOPE_SITE                    = std.RT_SCOPE_SITE
	RT_SCOPE_UNIVERSE                = std.RT_SCOPE_UNIVERSE
	RT_TABLE_COMPAT                  = std.RT_TABLE_COMPAT
	RT_TABLE_DEFAULT                 = std.RT_TABLE_DEFAULT
	RT_TABLE_LOCAL                   = std.RT_TABLE_LOCAL
	RT_TABLE_MAIN                    = std.RT_TABLE_MAIN
	RT_TABLE_MAX                     = std.RT_TABLE_MAX
	RT_TABLE_UNSPEC                  = std.RT_TABLE_UNSPEC
	RUSAGE_CHILDREN                  = std.RUSAGE_CHILDREN
	RUSAGE_SELF                      = std.RUSAGE_SELF
	RUSAGE_THREAD                    = std.RUSAGE_THREAD
	SCM_CREDENTIALS                  = std.SCM_CREDENTIALS
	SCM_RIGHTS                       = std.SCM_RIGHTS
	SCM_TIMESTAMP                    = std.SCM_TIMESTAMP
	SCM_TIMESTAMPING                 = std.SCM_TIMESTAMPING
	SCM_TIMESTAMPNS                  = std.SCM_TIMESTAMPNS
	SHUT_RD                          = std.SHUT_RD
	SHUT_RDWR                        = std.SHUT_RDWR
	SHUT_WR                          = std.SHUT_WR
	SIGABRT                          = std.SIGABRT
	SIGALRM                          = std.SIGALRM
	SIGBUS                           = std.SIGBUS
	SIGCHLD                          = std.SIGCHLD
	SIGCLD                           = std.SIGCLD
	SIGCONT                          = std.SIGCONT
	SIGFPE                           = std.SIGFPE
	SIGHUP                           = std.SIGHUP
	SIGILL                           = std.SIGILL
	SIGINT                           = std.SIGINT
	SIGIO                            = std.SIGIO
	SIGIOT                           = std.SIGIOT
	SIGKILL                          = std.SIGKILL
	SIGPIPE                          = std.SIGPIPE
	SIGPOLL                          = std.SIGPOLL
	SIGPROF                          = std.SIGPROF
	SIGPWR                           = std.SIGPWR
	SIGQUIT                          = std.SIGQUIT
	SIGSEGV                          = std.SIGSEGV
	SIGSTKFLT                        = std.SIGSTKFLT
	SIGSTOP                          = std.SIGSTOP
	SIGSYS                           = std.SIGSYS
	SIGTERM                          = std.SIGTERM
	SIGTRAP                          = std.SIGTRAP
	SIGTSTP                          = std.SIGTSTP
	SIGTTIN                          = std.SIGTTIN
	SIGTTOU                          = std.SIGTTOU
	SIGUNUSED                        = std.SIGUNUSED
	SIGURG                           = std.SIGURG
	SIGUSR1                          = std.SIGUSR1
	SIGUSR2                          = std.SIGUSR2
	SIGVTALRM                        = std.SIGVTALRM
	SIGWINCH                         = std.SIGWINCH
	SIGXCPU                          = std.SIGXCPU
	SIGXFSZ                          = std.SIGXFSZ
	SIOCADDDLCI                      = std.SIOCADDDLCI
	SIOCADDMULTI                     = std.SIOCADDMULTI
	SIOCADDRT                        = std.SIOCADDRT
	SIOCATMARK                       = std.SIOCATMARK
	SIOCDARP                         = std.SIOCDARP
	SIOCDELDLCI                      = std.SIOCDELDLCI
	SIOCDELMULTI                     = std.SIOCDELMULTI
	SIOCDELRT                        = std.SIOCDELRT
	SIOCDEVPRIVATE                   = std.SIOCDEVPRIVATE
	SIOCDIFADDR                      = std.SIOCDIFADDR
	SIOCDRARP                        = std.SIOCDRARP
	SIOCGARP                         = std.SIOCGARP
	SIOCGIFADDR                      = std.SIOCGIFADDR
	SIOCGIFBR                        = std.SIOCGIFBR
	SIOCGIFBRDADDR                   = std.SIOCGIFBRDADDR
	SIOCGIFCONF                      = std.SIOCGIFCONF
	SIOCGIFCOUNT                     = std.SIOCGIFCOUNT
	SIOCGIFDSTADDR                   = std.SIOCGIFDSTADDR
	SIOCGIFENCAP                     = std.SIOCGIFENCAP
	SIOCGIFFLAGS                     = std.SIOCGIFFLAGS
	SIOCGIFHWADDR                    = std.SIOCGIFHWADDR
	SIOCGIFINDEX                     = std.SIOCGIFINDEX
	SIOCGIFMAP                       = std.SIOCGIFMAP
	SIOCGIFMEM                       = std.SIOCGIFMEM
	SIOCGIFMETRIC                    = std.SIOCGIFMETRIC
	SIOCGIFMTU                       = std.SIOCGIFMTU
	SIOCGIFNAME                      = std.SIOCGIFNAME
	SIOCGIFNETMASK                   = std.SIOCGIFNETMASK
	SIOCGIFPFLAGS                    = std.SIOCGIFPFLAGS
	SIOCGIFSLAVE                     = std.SIOCGIFSLAVE
	SIOCGIFTXQLEN                    = std.SIOCGIFTXQLEN
	SIOCGPGRP                        = std.SIOCGPGRP
	SIOCGRARP                        = std.SIOCGRARP
	SIOCGSTAMP                       = std.SIOCGSTAMP
	SIOCGSTAMPNS                     = std.SIOCGSTAMPNS
	SIOCPROTOPRIVATE                 = std.SIOCPROTOPRIVATE
	SIOCRTMSG                        = std.SIOCRTMSG
	SIOCSARP                         = std.SIOCSARP
	SIOCSIFADDR                      = std.SIOCSIFADDR
	SIOCSIFBR                        = std.SIOCSIFBR
	SIOCSIFBRDADDR                   = std.SIOCSIFBRDADDR
	SIOCSIFDSTADDR                   = std.SIOCSIFDSTADDR
	SIOCSIFENCAP                     = std.SIOCSIFENCAP
	SIOCSIFFLAGS                     = std.SIOCSIFFLAGS
	SIOCSIFHWADDR                    = std.SIOCSIFHWADDR
	SIOCSIFHWBROADCAST               = std.SIOCSIFHWBROADCAST
	SIOCSIFLINK                      = std.SIOCSIFLINK
	SIOCSIFMAP                       = std.SIOCSIFMAP
	SIOCSIFMEM                       = std.SIOCSIFMEM
	SIOCSIFMETRIC                    = std.SIOCSIFMETRIC
	SIOCSIFMTU                       = std.SIOCSIFMTU
	SIOCSIFNAME                      = std.SIOCSIFNAME
	SIOCSIFNETMASK                   = std.SIOCSIFNETMASK
	SIOCSIFPFLAGS                    = std.SIOCSIFPFLAGS
	SIOCSIFSLAVE                     = std.SIOCSIFSLAVE
	SIOCSIFTXQLEN                    = std.SIOCSIFTXQLEN
	SIOCSPGRP                        = std.SIOCSPGRP
	SIOCSRARP                        = std.SIOCSRARP
	SOCK_CLOEXEC                     = std.SOCK_CLOEXEC
	SOCK_DCCP                        = std.SOCK_DCCP
	SOCK_DGRAM                       = std.SOCK_DGRAM
	SOCK_NONBLOCK                    = std.SOCK_NONBLOCK
	SOCK_PACKET                      = std.SOCK_PACKET
	SOCK_RAW                         = std.SOCK_RAW
	SOCK_RDM                         = std.SOCK_RDM
	SOCK_SEQPACKET                   = std.SOCK_SEQPACKET
	SOCK_STREAM                      = std.SOCK_STREAM
	SOL_AAL                          = std.SOL_AAL
	SOL_ATM                          = std.SOL_ATM
	SOL_DECNET                       = std.SOL_DECNET
	SOL_ICMPV6                       = std.SOL_ICMPV6
	SOL_IP                           = std.SOL_IP
	SOL_IPV6                         = std.SOL_IPV6
	SOL_IRDA                         = std.SOL_IRDA
	SOL_PACKET                       = std.SOL_PACKET
	SOL_RAW                          = std.SOL_RAW
	SOL_SOCKET                       = std.SOL_SOCKET
	SOL_TCP                          = std.SOL_TCP
	SOL_X25                          = std.SOL_X25
	SOMAXCONN                        = std.SOMAXCONN
	SO_ACCEPTCONN                    = std.SO_ACCEPTCONN
	SO_ATTACH_FILTER                 = std.SO_ATTACH_FILTER
	SO_BINDTODEVICE                  = std.SO_BINDTODEVICE
	SO_BROADCAST                     = std.SO_BROADCAST
	SO_BSDCOMPAT                     = std.SO_BSDCOMPAT
	SO_DEBUG                         = std.SO_DEBUG
	SO_DETACH_FILTER                 = std.SO_DETACH_FILTER
	SO_DOMAIN                        = std.SO_DOMAIN
	SO_DONTROUTE                     = std.SO_DONTROUTE
	SO_ERROR                         = std.SO_ERROR
	SO_KEEPALIVE                     = std.SO_KEEPALIVE
	SO_LINGER                        = std.SO_LINGER
	SO_MARK                          = std.SO_MARK
	SO_NO_CHECK                      = std.SO_NO_CHECK
	SO_OOBINLINE                     = std.SO_OOBINLINE
	SO_PASSCRED                      = std.SO_PASSCRED
	SO_PASSSEC                       = std.SO_PASSSEC
	SO_PEERCRED                      = std.SO_PEERCRED
	SO_PEERNAME                      = std.SO_PEERNAME
	SO_PEERSEC                       = std.SO_PEERSEC
	SO_PRIORITY                      = std.SO_PRIORITY
	SO_PROTOCOL                      = std.SO_PROTOCOL
	SO_RCVBUF                        = std.SO_RCVBUF
	SO_RCVBUFFORCE                   = std.SO_RCVBUFFORCE
	SO_RCVLOWAT                      = std.SO_RCVLOWAT
	SO_RCVTIMEO                      = std.SO_RCVTIMEO
	SO_REUSEADDR                     = std.SO_REUSEADDR
	SO_RXQ_OVFL                      = std.SO_RXQ_OVFL
	SO_SECURITY_AUTHENTICATION       = std.SO_SECURITY_AUTHENTICATION
	SO_SECURITY_ENCRYPTION_NETWORK   = std.SO_SECURITY_ENCRYPTION_NETWORK
	SO_SECURITY_ENCRYPTION_TRANSPORT = std.SO_SECURITY_ENCRYPTION_TRANSPORT
	SO_SNDBUF                        = std.SO_SNDBUF
	SO_SNDBUFFORCE                   = std.SO_SNDBUFFORCE
	SO_SNDLOWAT                      = std.SO_SNDLOWAT
	SO_SNDTIMEO                      = std.SO_SNDTIMEO
	SO_TIMESTAMP                     = std.SO_TIMESTAMP
	SO_TIMESTAMPING                  = std.SO_TIMESTAMPING
	SO_TIMESTAMPNS                   = std.SO_TIMESTAMPNS
	SO_TYPE                          = std.SO_TYPE
	SYS_ACCEPT                       = std.SYS_ACCEPT
	SYS_ACCEPT4                      = std.SYS_ACCEPT4
	SYS_ACCESS                       = std.SYS_ACCESS
	SYS_ACCT                         = std.SYS_ACCT
	SYS_ADD_KEY                      = std.SYS_ADD_KEY
	SYS_ADJTIMEX                     = std.SYS_ADJTIMEX
	SYS_AFS_SYSCALL                  = std.SYS_AFS_SYSCALL
	SYS_ALARM                        = std.SYS_ALARM
	SYS_ARCH_PRCTL                   = std.SYS_ARCH_PRCTL
	SYS_BIND                         = std.SYS_BIND
	SYS_BRK                          = std.SYS_BRK
	SYS_CAPGET                       = std.SYS_CAPGET
	SYS_CAPSET                       = std.SYS_CAPSET
	SYS_CHDIR                        = std.SYS_CHDIR
	SYS_CHMOD                        = std.SYS_CHMOD
	SYS_CHOWN                        = std.SYS_CHOWN
	SYS_CHROOT                       = std.SYS_CHROOT
	SYS_CLOCK_GETRES                 = std.SYS_CLOCK_GETRES
	SYS_CLOCK_GETTIME                = std.SYS_CLOCK_GETTIME
	SYS_CLOCK_NANOSLEEP              = std.SYS_CLOCK_NANOSLEEP
	SYS_CLOCK_SETTIME                = std.SYS_CLOCK_SETTIME
	SYS_CLONE                        = std.SYS_CLONE
	SYS_CLOSE                        = std.SYS_CLOSE
	SYS_CONNECT                      = std.SYS_CONNECT
	SYS_CREAT                        = std.SYS_CREAT
	SYS_CREATE_MODULE                = std.SYS_CREATE_MODULE
	SYS_DELETE_MODULE                = std.SYS_DELETE_MODULE
	SYS_DUP                          = std.SYS_DUP
	SYS_DUP2                         = std.SYS_DUP2
	SYS_DUP3                         = std.SYS_DUP3
	SYS_EPOLL_CREATE                 = std.SYS_EPOLL_CREATE
	SYS_EPOLL_CREATE1                = std.SYS_EPOLL_CREATE1
	SYS_EPOLL_CTL                    = std.SYS_EPOLL_CTL
	SYS_EPOLL_CTL_OLD                = std.SYS_EPOLL_CTL_OLD
	SYS_EPOLL_PWAIT                  = std.SYS_EPOLL_PWAIT
	SYS_EPOLL_WAIT                   = std.SYS_EPOLL_WAIT
	SYS_EPOLL_WAIT_OLD               = std.SYS_EPOLL_WAIT_OLD
	SYS_EVENTFD                      = std.SYS_EVENTFD
	SYS_EVENTFD2                     = std.SYS_EVENTFD2
	SYS_EXECVE                       = std.SYS_EXECVE
	SYS_EXIT                         = std.SYS_EXIT
	SYS_EXIT_GROUP                   = std.SYS_EXIT_GROUP
	SYS_FACCESSAT                    = std.SYS_FACCESSAT
	SYS_FADVISE64                    = std.SYS_FADVISE64
	SYS_FALLOCATE                    = std.SYS_FALLOCATE
	SYS_FANOTIFY_INIT                = std.SYS_FANOTIFY_INIT
	SYS_FANOTIFY_MARK                = std.SYS_FANOTIFY_MARK
	SYS_FCHDIR                       = std.SYS_FCHDIR
	SYS_FCHMOD                       = std.SYS_FCHMOD
	SYS_FCHMODAT                     = std.SYS_FCHMODAT
	SYS_FCHOWN                       = std.SYS_FCHOWN
	SYS_FCHOWNAT                     = std.SYS_FCHOWNAT
	SYS_FCNTL                        = std.SYS_FCNTL
	SYS_FDATASYNC                    = std.SYS_FDATASYNC
	SYS_FGETXATTR                    = std.SYS_FGETXATTR
	SYS_FLISTXATTR                   = std.SYS_FLISTXATTR
	SYS_FLOCK                        = std.SYS_FLOCK
	SYS_FORK                         = std.SYS_FORK
	SYS_FREMOVEXATTR                 = std.SYS_FREMOVEXATTR
	SYS_FSETXATTR                    = std.SYS_FSETXATTR
	SYS_FSTAT                        = std.SYS_FSTAT
	SYS_FSTATFS                      = std.SYS_FSTATFS
	SYS_FSYNC                        = std.SYS_FSYNC
	SYS_FTRUNCATE                    = std.SYS_FTRUNCATE
	SYS_FUTEX                        = std.SYS_FUTEX
	SYS_FUTIMESAT                    = std.SYS_FUTIMESAT
	SYS_GETCWD                       = std.SYS_GETCWD
	SYS_GETDENTS                     = std.SYS_GETDENTS
	SYS_GETDENTS64                   = std.SYS_GETDENTS64
	SYS_GETEGID                      = std.SYS_GETEGID
	SYS_GETEUID                      = std.SYS_GETEUID
	SYS_GETGID                       = std.SYS_GETGID
	SYS_GETGROUPS                    = std.SYS_GETGROUPS
	SYS_GETITIMER                    = std.SYS_GETITIMER
	SYS_GETPEERNAME                  = std.SYS_GETPEERNAME
	SYS_GETPGID                      = std.SYS_GETPGID
	SYS_GETPGRP                      = std.SYS_GETPGRP
	SYS_GETPID                       = std.SYS_GETPID
	SYS_GETPMSG                      = std.SYS_GETPMSG
	SYS_GETPPID                      = std.SYS_GETPPID
	SYS_GETPRIORITY                  = std.SYS_GETPRIORITY
	SYS_GETRESGID                    = std.SYS_GETRESGID
	SYS_GETRESUID                    = std.SYS_GETRESUID
	SYS_GETRLIMIT                    = std.SYS_GETRLIMIT
	SYS_GETRUSAGE                    = std.SYS_GETRUSAGE
	SYS_GETSID                       = std.SYS_GETSID
	SYS_GETSOCKNAME                  = std.SYS_GETSOCKNAME
	SYS_GETSOCKOPT                   = std.SYS_GETSOCKOPT
	SYS_GETTID                       = std.SYS_GETTID
	SYS_GETTIMEOFDAY                 = std.SYS_GETTIMEOFDAY
	SYS_GETUID                       = std.SYS_GETUID
	SYS_GETXATTR                     = std.SYS_GETXATTR
	SYS_GET_KERNEL_SYMS              = std.SYS_GET_KERNEL_SYMS
	SYS_GET_MEMPOLICY                = std.SYS_GET_MEMPOLICY
	SYS_GET_ROBUST_LIST              = std.SYS_GET_ROBUST_LIST
	SYS_GET_THREAD_AREA              = std.SYS_GET_THREAD_AREA
	SYS_INIT_MODULE                  = std.SYS_INIT_MODULE
	SYS_INOTIFY_ADD_WATCH            = std.SYS_INOTIFY_ADD_WATCH
	SYS_INOTIFY_INIT                 = std.SYS_INOTIFY_INIT
	SYS_INOTIFY_INIT1                = std.SYS_INOTIFY_INIT1
	SYS_INOTIFY_RM_WATCH             = std.SYS_INOTIFY_RM_WATCH
	SYS_IOCTL                        = std.SYS_IOCTL
	SYS_IOPERM                       = std.SYS_IOPERM
	SYS_IOPL                         = std.SYS_IOPL
	SYS_IOPRIO_GET                   = std.SYS_IOPRIO_GET
	SYS_IOPRIO_SET                   = std.SYS_IOPRIO_SET
	SYS_IO_CANCEL                    = std.SYS_IO_CANCEL
	SYS_IO_DESTROY                   = std.SYS_IO_DESTROY
	SYS_IO_GETEVENTS                 = std.SYS_IO_GETEVENTS
	SYS_IO_SETUP                     = std.SYS_IO_SETUP
	SYS_IO_SUBMIT                    = std.SYS_IO_SUBMIT
	SYS_KEXEC_LOAD                   = std.SYS_KEXEC_LOAD
	SYS_KEYCTL                       = std.SYS_KEYCTL
	SYS_KILL                         = std.SYS_KILL
	SYS_LCHOWN                       = std.SYS_LCHOWN
	SYS_LGETXATTR                    = std.SYS_LGETXATTR
	SYS_LINK                         = std.SYS_LINK
	SYS_LINKAT                       = std.SYS_LINKAT
	SYS_LISTEN                       = std.SYS_LISTEN
	SYS_LISTXATTR                    = std.SYS_LISTXATTR
	SYS_LLISTXATTR                   = std.SYS_LLISTXATTR
	SYS_LOOKUP_DCOOKIE               = std.SYS_LOOKUP_DCOOKIE
	SYS_LREMOVEXATTR                 = std.SYS_LREMOVEXATTR
	SYS_LSEEK                        = std.SYS_LSEEK
	SYS_LSETXATTR                    = std.SYS_LSETXATTR
	SYS_LSTAT                        = std.SYS_LSTAT
	SYS_MADVISE                      = std.SYS_MADVISE
	SYS_MBIND                        = std.SYS_MBIND
	SYS_MIGRATE_PAGES                = std.SYS_MIGRATE_PAGES
	SYS_MINCORE                      = std.SYS_MINCORE
	SYS_MKDIR                        = std.SYS_MKDIR
	SYS_MKDIRAT                      = std.SYS_MKDIRAT
	SYS_MKNOD                        = std.SYS_MKNOD
	SYS_MKNODAT                      = std.SYS_MKNODAT
	SYS_MLOCK                        = std.SYS_MLOCK
	SYS_MLOCKALL                     = std.SYS_MLOCKALL
	SYS_MMAP                         = std.SYS_MMAP
	SYS_MODIFY_LDT                   = std.SYS_MODIFY_LDT
	SYS_MOUNT                        = std.SYS_MOUNT
	SYS_MOVE_PAGES                   = std.SYS_MOVE_PAGES
	SYS_MPROTECT                     = std.SYS_MPROTECT
	SYS_MQ_GETSETATTR                = std.SYS_MQ_GETSETATTR
	SYS_MQ_NOTIFY                    = std.SYS_MQ_NOTIFY
	SYS_MQ_OPEN                      = std.SYS_MQ_OPEN
	SYS_MQ_TIMEDRECEIVE              = std.SYS_MQ_TIMEDRECEIVE
	SYS_MQ_TIMEDSEND                 = std.SYS_MQ_TIMEDSEND
	SYS_MQ_UNLINK                    = std.SYS_MQ_UNLINK
	SYS_MREMAP                       = std.SYS_MREMAP
	SYS_MSGCTL                       = std.SYS_MSGCTL
	SYS_MSGGET                       = std.SYS_MSGGET
	SYS_MSGRCV                       = std.SYS_MSGRCV
	SYS_MSGSND                       = std.SYS_MSGSND
	SYS_MSYNC                        = std.SYS_MSYNC
	SYS_MUNLOCK                      = std.SYS_MUNLOCK
	SYS_MUNLOCKALL                   = std.SYS_MUNLOCKALL
	SYS_MUNMAP                       = std.SYS_MUNMAP
	SYS_NANOSLEEP                    = std.SYS_NANOSLEEP
	SYS_NEWFSTATAT                   = std.SYS_NEWFSTATAT
	SYS_NFSSERVCTL                   = std.SYS_NFSSERVCTL
	SYS_OPEN                         = std.SYS_OPEN
	SYS_OPENAT                       = std.SYS_OPENAT
	SYS_PAUSE                        = std.SYS_PAUSE
	SYS_PERF_EVENT_OPEN              = std.SYS_PERF_EVENT_OPEN
	SYS_PERSONALITY                  = std.SYS_PERSONALITY
	SYS_PIPE                         = std.SYS_PIPE
	SYS_PIPE2                        = std.SYS_PIPE2
	SYS_PIVOT_ROOT                   = std.SYS_PIVOT_ROOT
	SYS_POLL                         = std.SYS_POLL
	SYS_PPOLL                        = std.SYS_PPOLL
	SYS_PRCTL                        = std.SYS_PRCTL
	SYS_PREAD64                      = std.SYS_PREAD64
	SYS_PREADV                       = std.SYS_PREADV
	SYS_PRLIMIT64                    = std.SYS_PRLIMIT64
	SYS_PSELECT6                     = std.SYS_PSELECT6
	SYS_PTRACE                       = std.SYS_PTRACE
	SYS_PUTPMSG                      = std.SYS_PUTPMSG
	SYS_PWRITE64                     = std.SYS_PWRITE64
	SYS_PWRITEV                      = std.SYS_PWRITEV
	SYS_QUERY_MODULE                 = std.SYS_QUERY_MODULE
	SYS_QUOTACTL                     = std.SYS_QUOTACTL
	SYS_READ                         = std.SYS_READ
	SYS_READAHEAD                    = std.SYS_READAHEAD
	SYS_READLINK                     = std.SYS_READLINK
	SYS_READLINKAT                   = std.SYS_READLINKAT
	SYS_READV                        = std.SYS_READV
	SYS_REBOOT                       = std.SYS_REBOOT
	SYS_RECVFROM                     = std.SYS_RECVFROM
	SYS_RECVMMSG                     = std.SYS_RECVMMSG
	SYS_RECVMSG                      = std.SYS_RECVMSG
	SYS_REMAP_FILE_PAGES             = std.SYS_REMAP_FILE_PAGES
	SYS_REMOVEXATTR                  = std.SYS_REMOVEXATTR
	SYS_RENAME                       = std.SYS_RENAME
	SYS_RENAMEAT                     = std.SYS_RENAMEAT
	SYS_REQUEST_KEY                  = std.SYS_REQUEST_KEY
	SYS_RESTART_SYSCALL              = std.SYS_RESTART_SYSCALL
	SYS_RMDIR                        = std.SYS_RMDIR
	SYS_RT_SIGACTION                 = std.SYS_RT_SIGACTION
	SYS_RT_SIGPENDING                = std.SYS_RT_SIGPENDING
	SYS_RT_SIGPROCMASK               = std.SYS_RT_SIGPROCMASK
	SYS_RT_SIGQUEUEINFO              = std.SYS_RT_SIGQUEUEINFO
	SYS_RT_SIGRETURN                 = std.SYS_RT_SIGRETURN
	SYS_RT_SIGSUSPEND                = std.SYS_RT_SIGSUSPEND
	SYS_RT_SIGTIMEDWAIT              = std.SYS_RT_SIGTIMEDWAIT
	SYS_RT_TGSIGQUEUEINFO            = std.SYS_RT_TGSIGQUEUEINFO
	SYS_SCHED_GETAFFINITY            = std.SYS_SCHED_GETAFFINITY
	SYS_SCHED_GETPARAM               = std.SYS_SCHED_GETPARAM
	SYS_SCHED_GETSCHEDULER           = std.SYS_SCHED_GETSCHEDULER
	SYS_SCHED_GET_PRIORITY_MAX       = std.SYS_SCHED_GET_PRIORITY_MAX
	SYS_SCHED_GET_PRIORITY_MIN       = std.SYS_SCHED_GET_PRIORITY_MIN
	SYS_SCHED_RR_GET_INTERVAL        = std.SYS_SCHED_RR_GET_INTERVAL
	SYS_SCHED_SETAFFINITY            = std.SYS_SCHED_SETAFFINITY
	SYS_SCHED_SETPARAM               = std.SYS_SCHED_SETPARAM
	SYS_SCHED_SETSCHEDULER           = std.SYS_SCHED_SETSCHEDULER
	SYS_SCHED_YIELD                  = std.SYS_SCHED_YIELD
	SYS_SECURITY                     = std.SYS_SECURITY
	SYS_SELECT                       = std.SYS_SELECT
	SYS_SEMCTL                       = std.SYS_SEMCTL
	SYS_SEMGET                       = std.SYS_SEMGET
	SYS_SEMOP                        = std.SYS_SEMOP
	SYS_SEMTIMEDOP                   = std.SYS_SEMTIMEDOP
	SYS_SENDFILE                     = std.SYS_SENDFILE
	SYS_SENDMSG                      = std.SYS_SENDMSG
	SYS_SENDTO                       = std.SYS_SENDTO
	SYS_SETDOMAINNAME                = std.SYS_SETDOMAINNAME
	SYS_SETFSGID                     = std.SYS_SETFSGID
	SYS_SETFSUID                     = std.SYS_SETFSUID
	SYS_SETGID                       = std.SYS_SETGID
	SYS_SETGROUPS                    = std.SYS_SETGROUPS
	SYS_SETHOSTNAME                  = std.SYS_SETHOSTNAME
	SYS_SETITIMER                    = std.SYS_SETITIMER
	SYS_SETPGID                      = std.SYS_SETPGID
	SYS_SETPRIORITY                  = std.SYS_SETPRIORITY
	SYS_SETREGID                     = std.SYS_SETREGID
	SYS_SETRESGID                    = std.SYS_SETRESGID
	SYS_SETRESUID                    = std.SYS_SETRESUID
	SYS_SETREUID                     = std.SYS_SETREUID
	SYS_SETRLIMIT                    = std.SYS_SETRLIMIT
	SYS_SETSID                       = std.SYS_SETSID
	SYS_SETSOCKOPT                   = std.SYS_SETSOCKOPT
	SYS_SETTIMEOFDAY                 = std.SYS_SETTIMEOFDAY
	SYS_SETUID                       = std.SYS_SETUID
	SYS_SETXATTR                     = std.SYS_SETXATTR
	SYS_SET_MEMPOLICY                = std.SYS_SET_MEMPOLICY
	SYS_SET_ROBUST_LIST              = std.SYS_SET_ROBUST_LIST
	SYS_SET_THREAD_AREA              = std.SYS_SET_THREAD_AREA
	SYS_SET_TID_ADDRESS              = std.SYS_SET_TID_ADDRESS
	SYS_SHMAT                        = std.SYS_SHMAT
	SYS_SHMCTL                       = std.SYS_SHMCTL
	SYS_SHMDT                        = std.SYS_SHMDT
	SYS_SHMGET                       = std.SYS_SHMGET
	SYS_SHUTDOWN                     = std.SYS_SHUTDOWN
	SYS_SIGALTSTACK                  = std.SYS_SIGALTSTACK
	SYS_SIGNALFD                     = std.SYS_SIGNALFD
	SYS_SIGNALFD4                    = std.SYS_SIGNALFD4
	SYS_SOCKET                       = std.SYS_SOCKET
	SYS_SOCKETPAIR                   = std.SYS_SOCKETPAIR
	SYS_SPLICE                       = std.SYS_SPLICE
	SYS_STAT                         = std.SYS_STAT
	SYS_STATFS                       = std.SYS_STATFS
	SYS_SWAPOFF                      = std.SYS_SWAPOFF
	SYS_SWAPON                       = std.SYS_SWAPON
	SYS_SYMLINK                      = std.SYS_SYMLINK
	SYS_SYMLINKAT                    = std.SYS_SYMLINKAT
	SYS_SYNC                         = std.SYS_SYNC
	SYS_SYNC_FILE_RANGE              = std.SYS_SYNC_FILE_RANGE
	SYS_SYSFS                        = std.SYS_SYSFS
	SYS_SYSINFO                      = std.SYS_SYSINFO
	SYS_SYSLOG                       = std.SYS_SYSLOG
	SYS_TEE                          = std.SYS_TEE
	SYS_TGKILL                       = std.SYS_TGKILL
	SYS_TIME                         = std.SYS_TIME
	SYS_TIMERFD_CREATE               = std.SYS_TIMERFD_CREATE
	SYS_TIMERFD_GETTIME              = std.SYS_TIMERFD_GETTIME
	SYS_TIMERFD_SETTIME              = std.SYS_TIMERFD_SETTIME
	SYS_TIMER_CREATE                 = std.SYS_TIMER_CREATE
	SYS_TIMER_DELETE                 = std.SYS_TIMER_DELETE
	SYS_TIMER_GETOVERRUN             = std.SYS_TIMER_GETOVERRUN
	SYS_TIMER_GETTIME                = std.SYS_TIMER_GETTIME
	SYS_TIMER_SETTIME                = std.SYS_TIMER_SETTIME
	SYS_TIMES                        = std.SYS_TIMES
	SYS_TKILL                        = std.SYS_TKILL
	SYS_TRUNCATE                     = std.SYS_TRUNCATE
	SYS_TUXCALL                      = std.SYS_TUXCALL
	SYS_UMASK                        = std.SYS_UMASK
	SYS_UMOUNT2                      = std.SYS_UMOUNT2
	SYS_UNAME                        = std.SYS_UNAME
	SYS_UNLINK                       = std.SYS_UNLINK
	SYS_UNLINKAT                     = std.SYS_UNLINKAT
	SYS_UNSHARE                      = std.SYS_UNSHARE
	SYS_USELIB                       = std.SYS_USELIB
	SYS_USTAT                        = std.SYS_USTAT
	SYS_UTIME                        = std.SYS_UTIME
	SYS_UTIMENSAT                    = std.SYS_UTIMENSAT
	SYS_UTIMES                       = std.SYS_UTIMES
	SYS_VFORK                        = std.SYS_VFORK
	SYS_VHANGUP                      = std.SYS_VHANGUP
	SYS_VMSPLICE                     = std.SYS_VMSPLICE
	SYS_VSERVER                      = std.SYS_VSERVER
	SYS_WAIT4                        = std.SYS_WAIT4
	SYS_WAITID                       = std.SYS_WAITID
	SYS_WRITE                        = std.SYS_WRITE
	SYS_WRITEV                       = std.SYS_WRITEV
	SYS__SYSCTL                      = std.SYS__SYSCTL
	S_BLKSIZE                        = std.S_BLKSIZE
	S_IEXEC                          = std.S_IEXEC
	S_IFBLK                          = std.S_IFBLK
	S_IFCHR                          = std.S_IFCHR
	S_IFDIR                          = std.S_IFDIR
	S_IFIFO                          = std.S_IFIFO
	S_IFLNK                          = std.S_IFLNK
	S_IFMT                           = std.S_IFMT
	S_IFREG                          = std.S_IFREG
	S_IFSOCK                         = std.S_IFSOCK
	S_IREAD                          = std.S_IREAD
	S_IRGRP                          = std.S_IRGRP
	S_IROTH                          = std.S_IROTH
	S_IRUSR                          = std.S_IRUSR
	S_IRWXG                          = std.S_IRWXG
	S_IRWXO                          = std.S_IRWXO
	S_IRWXU                          = std.S_IRWXU
	S_ISGID                          = std.S_ISGID
	S_ISUID                          = std.S_ISUID
	S_ISVTX                          = std.S_ISVTX
	S_IWGRP                          = std.S_IWGRP
	S_IWOTH                          = std.S_IWOTH
	S_IWRITE                         = std.S_IWRITE
	S_IWUSR                          = std.S_IWUSR
	S_IXGRP                          = std.S_IXGRP
	S_IXOTH                          = std.S_IXOTH
	S_IXUSR                          = std.S_IXUSR
	SizeofCmsghdr                    = std.SizeofCmsghdr
	SizeofICMPv6Filter               = std.SizeofICMPv6Filter
	SizeofIPMreq                     = std.SizeofIPMreq
	SizeofIPMreqn                    = std.SizeofIPMreqn
	SizeofIPv6MTUInfo                = std.SizeofIPv6MTUInfo
	SizeofIPv6Mreq                   = std.SizeofIPv6Mreq
	SizeofIfAddrmsg                  = std.SizeofIfAddrmsg
	SizeofIfInfomsg                  = std.SizeofIfInfomsg
	SizeofInet4Pktinfo               = std.SizeofInet4Pktinfo
	SizeofInet6Pktinfo               = std.SizeofInet6Pktinfo
	SizeofInotifyEvent               = std.SizeofInotifyEvent
	SizeofLinger                     = std.SizeofLinger
	SizeofMsghdr                     = std.SizeofMsghdr
	SizeofNlAttr                     = std.SizeofNlAttr
	SizeofNlMsgerr                   = std.SizeofNlMsgerr
	SizeofNlMsghdr                   = std.SizeofNlMsghdr
	SizeofRtAttr                     = std.SizeofRtAttr
	SizeofRtGenmsg                   = std.SizeofRtGenmsg
	SizeofRtMsg                      = std.SizeofRtMsg
	SizeofRtNexthop                  = std.SizeofRtNexthop
	SizeofSockFilter                 = std.SizeofSockFilter
	SizeofSockFprog                  = std.SizeofSockFprog
	SizeofSockaddrAny                = std.SizeofSockaddrAny
	SizeofSockaddrInet4              = std.SizeofSockaddrInet4
	SizeofSockaddrInet6              = std.SizeofSockaddrInet6
	SizeofSockaddrLinklayer          = std.SizeofSockaddrLinklayer
	SizeofSockaddrNetlink            = std.SizeofSockaddrNetlink
	SizeofSockaddrUnix               = std.SizeofSockaddrUnix
	SizeofTCPInfo                    = std.SizeofTCPInfo
	SizeofUcred                      = std.SizeofUcred
	TCGETS                           = std.TCGETS
	TCIFLUSH                         = std.TCIFLUSH
	TCIOFLUSH                        = std.TCIOFLUSH
	TCOFLUSH                         = std.TCOFLUSH
	TCP_CONGESTION                   = std.TCP_CONGESTION
	TCP_CORK                         = std.TCP_CORK
	TCP_DEFER_ACCEPT                 = std.TCP_DEFER_ACCEPT
	TCP_INFO                         = std.TCP_INFO
	TCP_KEEPCNT                      = std.TCP_KEEPCNT
	TCP_KEEPIDLE                     = std.TCP_KEEPIDLE
	TCP_KEEPINTVL                    = std.TCP_KEEPINTVL
	TCP_LINGER2                      = std.TCP_LINGER2
	TCP_MAXSEG                       = std.TCP_MAXSEG
	TCP_MAXWIN                       = std.TCP_MAXWIN
	TCP_MAX_WINSHIFT                 = std.TCP_MAX_WINSHIFT
	TCP_MD5SIG                       = std.TCP_MD5SIG
	TCP_MD5SIG_MAXKEYLEN             = std.TCP_MD5SIG_MAXKEYLEN
	TCP_MSS                          = std.TCP_MSS
	TCP_NODELAY                      = std.TCP_NODELAY
	TCP_QUICKACK                     = std.TCP_QUICKACK
	TCP_SYNCNT                       = std.TCP_SYNCNT
	TCP_WINDOW_CLAMP                 = std.TCP_WINDOW_CLAMP
	TCSETS                           = std.TCSETS
	TIOCCBRK                         = std.TIOCCBRK
	TIOCCONS                         = std.TIOCCONS
	TIOCEXCL                         = std.TIOCEXCL
	TIOCGDEV                         = std.TIOCGDEV
	TIOCGETD                         = std.TIOCGETD
	TIOCGICOUNT                      = std.TIOCGICOUNT
	TIOCGLCKTRMIOS                   = std.TIOCGLCKTRMIOS
	TIOCGPGRP                        = std.TIOCGPGRP
	TIOCGPTN                         = std.TIOCGPTN
	TIOCGRS485                       = std.TIOCGRS485
	TIOCGSERIAL                      = std.TIOCGSERIAL
	TIOCGSID                         = std.TIOCGSID
	TIOCGSOFTCAR                     = std.TIOCGSOFTCAR
	TIOCGWINSZ                       = std.TIOCGWINSZ
	TIOCINQ                          = std.TIOCINQ
	TIOCLINUX                        = std.TIOCLINUX
	TIOCMBIC                         = std.TIOCMBIC
	TIOCMBIS                         = std.TIOCMBIS
	TIOCMGET                         = std.TIOCMGET
	TIOCMIWAIT                       = std.TIOCMIWAIT
	TIOCMSET                         = std.TIOCMSET
	TIOCM_CAR                        = std.TIOCM_CAR
	TIOCM_CD                         = std.TIOCM_CD
	TIOCM_CTS                        = std.TIOCM_CTS
	TIOCM_DSR                        = std.TIOCM_DSR
	TIOCM_DTR                        = std.TIOCM_DTR
	TIOCM_LE                         = std.TIOCM_LE
	TIOCM_RI                         = std.TIOCM_RI
	TIOCM_RNG                        = std.TIOCM_RNG
	TIOCM_RTS                        = std.TIOCM_RTS
	TIOCM_SR                         = std.TIOCM_SR
	TIOCM_ST                         = std.TIOCM_ST
	TIOCNOTTY                        = std.TIOCNOTTY
	TIOCNXCL                         = std.TIOCNXCL
	TIOCOUTQ                         = std.TIOCOUTQ
	TIOCPKT                          = std.TIOCPKT
	TIOCPKT_DATA                     = std.TIOCPKT_DATA
	TIOCPKT_DOSTOP                   = std.TIOCPKT_DOSTOP
	TIOCPKT_FLUSHREAD                = std.TIOCPKT_FLUSHREAD
	TIOCPKT_FLUSHWRITE               = std.TIOCPKT_FLUSHWRITE
	TIOCPKT_IOCTL                    = std.TIOCPKT_IOCTL
	TIOCPKT_NOSTOP                   = std.TIOCPKT_NOSTOP
	TIOCPKT_START                    = std.TIOCPKT_START
	TIOCPKT_STOP                     = std.TIOCPKT_STOP
	TIOCSBRK                         = std.TIOCSBRK
	TIOCSCTTY                        = std.TIOCSCTTY
	TIOCSERCONFIG                    = std.TIOCSERCONFIG
	TIOCSERGETLSR                    = std.TIOCSERGETLSR
	TIOCSERGETMULTI                  = std.TIOCSERGETMULTI
	TIOCSERGSTRUCT                   = std.TIOCSERGSTRUCT
	TIOCSERGWILD                     = std.TIOCSERGWILD
	TIOCSERSETMULTI                  = std.TIOCSERSETMULTI
	TIOCSERSWILD                     = std.TIOCSERSWILD
	TIOCSER_TEMT                     = std.TIOCSER_TEMT
	TIOCSETD                         = std.TIOCSETD
	TIOCSIG                          = std.TIOCSIG
	TIOCSLCKTRMIOS                   = std.TIOCSLCKTRMIOS
	TIOCSPGRP                        = std.TIOCSPGRP
	TIOCSPTLCK                       = std.TIOCSPTLCK
	TIOCSRS485                       = std.TIOCSRS485
	TIOCSSERIAL                      = std.TIOCSSERIAL
	TIOCSSOFTCAR                     = std.TIOCSSOFTCAR
	TIOCSTI                          = std.TIOCSTI
	TIOCSWINSZ                       = std.TIOCSWINSZ
	TOSTOP                           = std.TOSTOP
	TUNATTACHFILTER                  = std.TUNATTACHFILTER
	TUNDETACHFILTER                  = std.TUNDETACHFILTER
	TUNGETFEATURES                   = std.TUNGETFEATURES
	TUNGETIFF                        = std.TUNGETIFF
	TUNGETSNDBUF                     = std.TUNGETSNDBUF
	TUNGETVNETHDRSZ                  = std.TUNGETVNETHDRSZ
	TUNSETDEBUG                      = std.TUNSETDEBUG
	TUNSETGROUP                      = std.TUNSETGROUP
	TUNSETIFF                        = std.TUNSETIFF
	TUNSETLINK                       = std.TUNSETLINK
	TUNSETNOCSUM                     = std.TUNSETNOCSUM
	TUNSETOFFLOAD                    = std.TUNSETOFFLOAD
	TUNSETOWNER                      = std.TUNSETOWNER
	TUNSETPERSIST                    = std.TUNSETPERSIST
	TUNSETSNDBUF                     = std.TUNSETSNDBUF
	TUNSETTXFILTER                   = std.TUNSETTXFILTER
	TUNSETVNETHDRSZ                  = std.TUNSETVNETHDRSZ
	VDISCARD                         = std.VDISCARD
	VEOF                             = std.VEOF
	VEOL                             = std.VEOL
	VEOL2                            = std.VEOL2
	VERASE                           = std.VERASE
	VINTR                            = std.VINTR
	VKILL                            = std.VKILL
	VLNEXT                           = std.VLNEXT
	VMIN                             = std.VMIN
	VQUIT                            = std.VQUIT
	VREPRINT                         = std.VREPRINT
	VSTART                           = std.VSTART
	VSTOP                            = std.VSTOP
	VSUSP                            = std.VSUSP
	VSWTC                            = std.VSWTC
	VTIME                            = std.VTIME
	VWERASE                          = std.VWERASE
	WALL                             = std.WALL
	WCLONE                           = std.WCLONE
	WCONTINUED                       = std.WCONTINUED
	WEXITED                          = std.WEXITED
	WNOHANG                          = std.WNOHANG
	WNOTHREAD                        = std.WNOTHREAD
	WNOWAIT                          = std.WNOWAIT
	WORDSIZE                         = std.WORDSIZE
	WSTOPPED                         = std.WSTOPPED
	WUNTRACED                        = std.WUNTRACED
	XCASE                            = std.XCASE
)

// Flock always succeeds: locks are not modelled.
func Flock(fd int, how int) error { return nil }
