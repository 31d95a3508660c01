//! Model of `uuid`: a v4 UUID's text is fresh random content.
pub const UUID4: u64 = 0x4444_0000_0000_0004;
pub struct Uuid(u64);
impl Uuid {
    pub fn new_v4() -> Uuid { Uuid(UUID4) }
    pub fn nil() -> Uuid { Uuid(1) }
    pub fn from_u128(_: u128) -> Uuid { Uuid(2) }
}
impl vk::model::string::VpText for Uuid { fn vp_to_string(&self) -> vk::model::string::String { vk::model::vbytes::text(self.0, 36) } }
