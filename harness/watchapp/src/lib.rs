//! The smallest application: its messages to the host are recorded once, and modules repeating them
//! with another number stand for later builds.
use vertigo::{dom, DomNode};

#[vertigo::main]
fn app() -> DomNode {
    vertigo::get_driver().plains(|url| url.starts_with("/plain").then(|| "plain build 000000 <p></p></body></html> rest".to_string()));
    dom! { <html><head/><body><p title="</body>">"build 000000"</p><script>"let a = '</body>';"</script></body></html> }
}
