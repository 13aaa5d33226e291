//! Stand-in for directories-next: directories below a scratch prefix that nothing creates.
use std::path::{Path, PathBuf};
pub struct ProjectDirs(PathBuf);
impl ProjectDirs {
    pub fn from(_q: &str, _o: &str, app: &str) -> Option<Self> { Some(ProjectDirs(Path::new("/nonexistent").join(app))) }
    pub fn data_local_dir(&self) -> &Path { &self.0 }
    pub fn data_dir(&self) -> &Path { &self.0 }
    pub fn config_dir(&self) -> &Path { &self.0 }
    pub fn cache_dir(&self) -> &Path { &self.0 }
}
