//! No logger: for the tests of witnet_node, which ask for one.
pub struct Builder;
pub fn builder() -> Builder {
    Builder
}
impl Builder {
    pub fn is_test(&mut self, _: bool) -> &mut Self {
        self
    }
    pub fn try_init(&mut self) -> Result<(), ()> {
        Ok(())
    }
}
