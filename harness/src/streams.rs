//! The broker's side of a connection.
use ratelmq::mqtt::transport::mqtt_bytes_stream::*;
use tokio::sym as world;

/// the broker's reading side of a new connection
pub fn reader(cap: usize) -> (usize, MqttBytesReadStream) {
    let c = world::new_conn();
    let (r, w) = world::stream(c).into_split();
    w.forget();
    (c, MqttBytesReadStream::new(cap, r))
}
/// the broker's writing side of a new connection
pub fn writer(cap: usize) -> (usize, MqttBytesWriteStream) {
    let c = world::new_conn();
    let (r, w) = world::stream(c).into_split();
    std::mem::forget(r);
    (c, MqttBytesWriteStream::new(cap, w))
}

