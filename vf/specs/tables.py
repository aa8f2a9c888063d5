"""RefPolicy naming tables the specifications refer to."""
ABBR = [(b'fs', b'filesystem'), (b'corecmd', b'corecommands'), (b'seutil', b'selinuxutil'), (b'libs', b'libraries'), (b'dev', b'devices'),
        (b'term', b'terminal'), (b'corenet', b'corenetwork'), (b'auth', b'authlogin'), (b'userdom', b'userdomain'), (b'sysnet', b'sysnetwork')]
MACROS = [b'domain_auto_transition_pattern', b'domain_transition_pattern']
TRANSFORM = [b'_type', b'_file', b'_domain', b'_node', b'_agent', b'_delivery', b'_sender', b'_boolean', b'_content', b'_constrained',
             b'_executable', b'_exemption', b'_object', b'_mountpoint']
