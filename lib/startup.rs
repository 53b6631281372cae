// the project's plugins, loaded, with nothing called yet but their own lists of commands
pub open spec fn start(p: Project, w: W) -> bool { exists|q: Plugins| #[trigger] world(q) == w && registry(p, q.name_to_plugin) }
