//@ inline MAX_PACKET_SIZE MAX_FRAGMENTS MAX_FRAGMENT_SIZE MAX_PACKET_WINDOW_SIZE MAX_CHANNELS CHANNEL_COUNT
//@ take src/frame/serial/mod.rs const FRAME_HEADER_SIZE
//@ end
//@ take src/frame/serial/mod.rs const FRAME_CRC_SIZE
//@ end
//@ take src/frame/serial/mod.rs const FRAME_OVERHEAD
//@ end
//@ take src/frame/serial/mod.rs const DATAGRAM_HEADER_SIZE_MICRO
//@ end
//@ take src/frame/serial/mod.rs const DATAGRAM_HEADER_SIZE_SMALL
//@ end
//@ take src/frame/serial/mod.rs const DATAGRAM_HEADER_SIZE_LARGE
//@ end
//@ take src/frame/serial/mod.rs const MAX_DATAGRAM_OVERHEAD
//@ end
//@ take src/frame/serial/mod.rs const DATA_FRAME_PAYLOAD_HEADER_SIZE
//@ end
//@ take src/frame/serial/mod.rs const DATA_FRAME_OVERHEAD
//@ end
//@ take src/frame/serial/mod.rs const MAX_CHANNELS
//@ end
//@ take src/lib.rs const CHANNEL_COUNT
//@ end
//@ take src/lib.rs const MAX_FRAME_WINDOW_SIZE
//@ end
//@ take src/lib.rs const MAX_PACKET_WINDOW_SIZE
//@ end
//@ take src/lib.rs const INTERNET_MTU
//@ end
//@ take src/lib.rs const UDP_HEADER_SIZE
//@ end
//@ take src/lib.rs const MAX_FRAME_SIZE
//@ end
//@ take src/lib.rs const MAX_FRAGMENT_SIZE
//@ end
//@ take src/frame/serial/mod.rs const MAX_FRAGMENTS
//@ end
//@ take src/lib.rs const MAX_PACKET_SIZE
//@ end
/*inlined constants*/
// sizes the property texts name
proof fn const_facts() ensures
    MAX_FRAME_SIZE == 1472, // C04/C13/C16/C18
    MAX_FRAGMENT_SIZE + MAX_DATAGRAM_OVERHEAD + DATA_FRAME_OVERHEAD == MAX_FRAME_SIZE, // C04
    MAX_PACKET_WINDOW_SIZE == 4096, // C06
    MAX_FRAGMENT_SIZE > 0,
{}
