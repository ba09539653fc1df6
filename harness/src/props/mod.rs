#[cfg(feature = "interop")]
pub mod bevy;
pub mod custom;
#[cfg(feature = "interop")]
pub mod logging;
pub mod meta;
pub mod misc;
pub mod queries;
pub mod robust;
pub mod three;
pub mod tiles;
pub mod shapes;
pub mod transforms;

use crate::runner::Prop;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(queries::PROPS.iter());
    v.extend(meta::PROPS.iter());
    v.extend(shapes::PROPS.iter());
    v.extend(transforms::PROPS.iter());
    v.extend(robust::PROPS.iter());
    v.extend(tiles::PROPS.iter());
    v.extend(misc::PROPS.iter());
    v.extend(custom::PROPS.iter());
    v.extend(three::PROPS.iter());
    #[cfg(feature = "interop")]
    {
        v.extend(bevy::PROPS.iter());
        v.extend(logging::PROPS.iter());
    }
    v
}
