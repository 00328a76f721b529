//@ for: C07 C08 C10 C03 C09 C17 C18
//@ panics: C03
//@ rewrite /\bframe::(serial::)?//
//@ rewrite /\bhalf_connection::Config\b/HcConfig/
//@ rewrite /\bhalf_connection::(?=HalfConnection)//
//@ rewrite /\bnet::(?=SocketAddr|UdpSocket)//
//@ rewrite /\btime::(?=Instant)//
//@ rewrite /\bstd::io::Error\b/IoError/
//@ rewrite /\brand::random::<u32>\(\)/random_u32()/
//@ rewrite /\buse crate::packet_id;//
//@ rewrite /\bpacket_id::(?=MASK)//
//@ rewrite /\bRc<RefCell<(?:remote_client::)?RemoteClient>>/ClientRef/
//@ rewrite /\bHashMap<SocketAddr, ClientRef>/Clients/
//@ rewrite /\bHashMap::new\(\)/Clients::new()/
//@ rewrite /\bRc::clone\(&(\w+)\)/\1.dup()/
//@ rewrite /\bRc::new\(RefCell::new\((.*?)\)\);/ClientRef::alloc(\1, &mut self.heap);/s
//@ rewrite /(\w+(?:\.\w+)*)\.borrow_mut\(\)/\1.cell_mut(&mut self.heap)/
//@ rewrite /std::mem::drop\(client\);//
//@ rewrite /\bremote_client:://
//@ rewrite /\bevent_queue::Event\b/TimerEvent/
//@ rewrite /\bevent_queue:://
//@ rewrite /\bmatch client\.state \{/match &mut client.state {/
//@ rewrite /\bmatch self\.state \{/match &mut self.state {/
//@ rewrite /\((ref mut|ref) (\w+)\) =>/(\2) =>/
//@ rewrite /(\w+\.half_connection)\.receive\(&mut EventPacketSink::new\((\w+), &mut self\.events_out\)\)/receive_into(&mut \1, \2, &mut self.events_out)/
//@ rewrite /\bassert!\(([^,;]*),[^;]*\);/vassert(\1);/s
#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include std.inc
//@ include endpoint.inc
//@ include server.inc
}
fn main() {}
