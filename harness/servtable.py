"""Rows of the service table as published (name, protocol, port)."""
ROWS = [
    ('aol', 'TCP', 5190),
    ('bgp', 'TCP', 179),
    ('biff', 'UDP', 512),
    ('bootpc', 'UDP', 68),
    ('bootps', 'UDP', 67),
    ('chargen', 'TCP', 19),
    ('citrix-ica', 'TCP', 1494),
    ('cmd', 'TCP', 514),
    ('ctiqbe', 'TCP', 2748),
    ('daytime', 'TCP', 13),
    ('discard', 'TCP', 9),
    ('discard', 'UDP', 9),
    ('domain', 'TCP', 53),
    ('domain', 'UDP', 53),
    ('dnsix', 'UDP', 195),
    ('echo', 'TCP', 7),
    ('echo', 'UDP', 7),
    ('exec', 'TCP', 512),
    ('finger', 'TCP', 79),
    ('ftp', 'TCP', 21),
    ('ftp-data', 'TCP', 20),
    ('gopher', 'TCP', 70),
    ('https', 'TCP', 443),
    ('h323', 'TCP', 1720),
    ('hostname', 'TCP', 101),
    ('ident', 'TCP', 113),
    ('imap4', 'TCP', 143),
    ('irc', 'TCP', 194),
    ('isakmp', 'UDP', 500),
    ('kerberos', 'TCP', 750),
    ('kerberos', 'UDP', 750),
    ('klogin', 'TCP', 543),
    ('kshell', 'TCP', 544),
    ('ldap', 'TCP', 389),
    ('ldaps', 'TCP', 636),
    ('lpd', 'TCP', 515),
    ('login', 'TCP', 513),
    ('lotusnotes', 'TCP', 1352),
    ('mobile-ip', 'UDP', 434),
    ('nameserver', 'UDP', 42),
    ('netbios-ns', 'UDP', 137),
    ('netbios-dgm', 'UDP', 138),
    ('netbios-ssn', 'TCP', 139),
    ('nntp', 'TCP', 119),
    ('ntp', 'UDP', 123),
    ('pcanywhere-status', 'UDP', 5632),
    ('pcanywhere-data', 'TCP', 5631),
    ('pim-auto-rp', 'TCP', 496),
    ('pim-auto-rp', 'UDP', 496),
    ('pop2', 'TCP', 109),
    ('pop3', 'TCP', 110),
    ('pptp', 'TCP', 1723),
    ('radius', 'UDP', 1645),
    ('radius-acct', 'UDP', 1646),
    ('rip', 'UDP', 520),
    ('secureid-udp', 'UDP', 5510),
    ('smtp', 'TCP', 25),
    ('snmp', 'UDP', 161),
    ('snmptrap', 'UDP', 162),
    ('sqlnet', 'TCP', 1521),
    ('ssh', 'TCP', 22),
    ('sunrpc', 'TCP', 111),
    ('sunrpc', 'UDP', 111),
    ('syslog', 'UDP', 514),
    ('tacacs', 'TCP', 49),
    ('tacacs', 'UDP', 49),
    ('talk', 'TCP', 517),
    ('talk', 'UDP', 517),
    ('telnet', 'TCP', 23),
    ('tftp', 'UDP', 69),
    ('time', 'UDP', 37),
    ('uucp', 'TCP', 540),
    ('who', 'UDP', 513),
    ('whois', 'TCP', 43),
    ('www', 'TCP', 80),
    ('xdmcp', 'UDP', 177),
    ('echo', 'ICMP', 8),
    ('echo-reply', 'ICMP', 0),
    ('information-reply', 'ICMP', 16),
    ('information-request', 'ICMP', 15),
    ('mask-reply', 'ICMP', 18),
    ('mask-request', 'ICMP', 17),
    ('mobile-redirect', 'ICMP', 32),
    ('parameter-problem', 'ICMP', 12),
    ('redirect', 'ICMP', 5),
    ('router-advertisement', 'ICMP', 9),
    ('router-solicitation', 'ICMP', 10),
    ('source-quench', 'ICMP', 4),
    ('time-exceeded', 'ICMP', 11),
    ('timestamp-reply', 'ICMP', 14),
    ('timestamp-request', 'ICMP', 13),
    ('unreachable', 'ICMP', 3),
    ('traceroute', 'ICMP', 30),
]
