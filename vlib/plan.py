"""Which contracts decide which property (DESIGN.md section 4)."""
TRUSTED = [
    'Kani 0.68.0 with CBMC/CaDiCaL: translation of MIR to SAT and the solver',
    'Verus 0.2026.09.13 with Z3 and vstd; the extraction of vlib/verus.py (rewrites are listed per unit)',
    'rustc (the code that is verified is compiled by the same front end as the code that runs)',
]
ASSUMPTIONS = [
    'std::time, std::net and the rand crate are replaced by stand-ins with the same interface (virtual clock, virtual datagram network, arbitrary values) by a textual substitution of paths; the rest of the source is compiled verbatim',
    'calls into an endpoint are sequential (the types are not Sync), and a call happens at one instant of the virtual clock',
]
FUNCTIONS = {
    'k_packet_id': ['packet_id::add', 'packet_id::sub', 'packet_id::is_valid'],
    'k_frame_ack': ['FrameAckQueue::mark_seen', 'FrameAckQueue::resynchronize', 'FrameAckQueue::pop', 'ReceiveWindow::contains', 'ReceiveWindow::advance'],
}
X = 'Contracts on the functions the property depends on are discharged by the verifier for all inputs; the composition of those contracts over histories is executed as a whole-connection contract on generated histories (bounded).'
PLAN = {
 'C01': dict(level='proof', explain=X, native={'hc_pair': {'hc_lossy': 3, 'hc_wrap': 2, 'hc_tiny': 1}, 'sys': {'sys_plain': 1, 'sys_hostile': 1}, 'asm': {'asm_recv': 1}}, kani={'k_packet_id': '*', 'k_frame_ack': '*'}, verus=['codec', 'packet_id', 'frame_ack', 'assembly_window', 'packet_receiver', 'packet_sender', 'pending_packet', 'client', 'half']),
 'C02': dict(level='proof', explain=X, native={'hc_pair': {'hc_lossy': 2, 'hc_blackout': 1, 'hc_ackloss': 1, 'hc_stream': 2, 'hc_window': 1, 'hc_modes': 1}, 'sys': {'sys_plain': 1}}, kani={'k_frame_ack': '*'}, verus=['frame_queue', 'packet_id', 'frame_ack', 'assembly_window', 'packet_receiver', 'packet_sender', 'pending_packet', 'half']),
 'C03': dict(level='exploration', explain=X, native={'hc_pair': {'hc_wrap': 1, 'hc_tiny': 1, 'hc_rate': 1}, 'sys': {'sys_hostile': 4, 'sys_hs': 1}, 'asm': {'asm_recv': 1}, 'codec': {'codec_hostile': 1}, 'twin': {'twin_acks': 1}}, verus=['frame_queue', 'packet_id', 'frame_ack', 'assembly_window', 'packet_receiver', 'packet_sender', 'client', 'server', 'half', 'send_rate']),
 'C04': dict(level='exploration', explain=X, native={'hc_pair': {'hc_lossy': 2, 'hc_tiny': 2, 'hc_ideal': 1}, 'sys': {'sys_plain': 1, 'sys_hostile': 1}, 'asm': {'asm_window': 1, 'asm_recv': 1}}, verus=['codec', 'assembly_window', 'pending_packet', 'packet_receiver']),
 'C05': dict(level='exploration', explain=X, native={'hc_pair': {'hc_ideal': 4, 'hc_modes': 1}}, verus=['packet_receiver', 'packet_sender', 'half']),
 'C06': dict(level='exploration', explain=X, native={'hc_pair': {'hc_window': 2, 'hc_tiny': 2}, 'sys': {'sys_hostile': 2}, 'asm': {'asm_window': 1, 'asm_recv': 1}}, verus=['frame_ack', 'assembly_window', 'packet_receiver', 'packet_sender']),
 'C07': dict(level='exploration', explain=X, native={'sys': {'sys_hs': 4, 'sys_plain': 1, 'sys_hostile': 1}}, verus=['client', 'server']),
 'C08': dict(level='exploration', explain=X, native={'sys': {'sys_hs': 1, 'sys_plain': 1, 'sys_disc': 2, 'sys_idle': 1}}, verus=['client', 'server']),
 'C09': dict(level='exploration', explain=X, native={'sys': {'sys_disc': 4, 'sys_plain': 1}}, verus=['client', 'server', 'half']),
 'C10': dict(level='exploration', explain=X, native={'sys': {'sys_idle': 3, 'sys_hs': 1, 'sys_disc': 1}}, verus=['client', 'server', 'half']),
 'C11': dict(level='exploration', explain=X, native={'hc_pair': {'hc_blackout': 2, 'hc_rttstep': 2, 'hc_ackloss': 1, 'hc_stream': 1, 'hc_window': 1}}, verus=['frame_queue', 'frame_ack', 'packet_id', 'packet_receiver', 'packet_sender', 'half']),
 'C12': dict(level='exploration', explain=X, native={'hc_pair': {'hc_modes': 3, 'hc_lossy': 1, 'hc_ideal': 1}}, verus=['frame_queue', 'packet_sender', 'pending_packet', 'half']),
 'C13': dict(level='exploration', explain=X, native={'hc_pair': {'hc_rate': 3}, 'sys': {'sys_plain': 1}}, verus=['half', 'send_rate']),
 'C14': dict(level='exploration', explain=X, native={'ratectl': {'rate_bounds': 3}, 'losses': {'loss_intervals': 1, 'fq_model': 1}, 'hc_pair': {'hc_lossy': 1, 'hc_rttstep': 1}}, verus=['frame_queue', 'half', 'send_rate']),
 'C15': dict(level='exploration', explain=X, native={'twin': {'twin_acks': 3}, 'losses': {'fq_model': 2}, 'hc_pair': {'hc_ackloss': 1}}, verus=['frame_queue', 'frame_ack', 'half']),
 'C16': dict(level='exploration', explain=X, native={'codec': {'codec_roundtrip': 2, 'codec_hostile': 2, 'codec_flips': 1}}, extra=['crc_syndromes'], verus=['codec']),
 'C17': dict(level='exploration', explain=X, native={'sys': {'sys_hs': 3, 'sys_plain': 1}}, verus=['server']),
 'C18': dict(level='exploration', explain=X, native={'sys': {'sys_hs': 3, 'sys_hostile': 1}}, verus=['codec', 'server', 'half']),
 'C19': dict(level='exploration', explain=X, native={'sys': {'sys_heap': 4}}),
 'C20': dict(level='exploration', explain=X, native={'hc_pair': {'hc_modes': 2, 'hc_tiny': 1}, 'sys': {'sys_plain': 2}}, verus=['packet_sender', 'client', 'half']),
}
