pub trait StreamExt {}
impl<T> StreamExt for T {}
