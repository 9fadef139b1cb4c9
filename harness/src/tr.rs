//! Trait bundles: what the operation tables need of an element type.
use crate::el::El;
use mixed_num::*;

pub trait Signed: El + MixedNum + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedReal + MixedAbs + MixedPowi + Default + core::fmt::Display {}
impl<T: El + MixedNum + MixedNumSigned + MixedOps + MixedZero + MixedOne + MixedReal + MixedAbs + MixedPowi + Default + core::fmt::Display> Signed for T {}

/// Signed fixed point and floats: everything common to both.
pub trait Full: Signed + MixedSqrt + MixedAtan + MixedSin + MixedCos + MixedTrigonometry + MixedWrapPhase + MixedPi + MixedConsts + MixedExp {}
impl<T: Signed + MixedSqrt + MixedAtan + MixedSin + MixedCos + MixedTrigonometry + MixedWrapPhase + MixedPi + MixedConsts + MixedExp> Full for T {}
