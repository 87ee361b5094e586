//! Stand-in for ark-relations (gr1cs): same synthesis semantics, in particular a variable's
//! index is reserved before its assignment closure runs, and a failing closure aborts synthesis
//! with the constraints and assignments made so far left in place.
pub mod gr1cs {
    use ark_ff::{Field, Zero};
    use std::cell::{Ref, RefCell, RefMut};
    use std::collections::BTreeMap;
    use std::fmt;
    use std::ops::*;
    use std::rc::Rc;

    pub const R1CS_PREDICATE_LABEL: &str = "R1CS";
    pub type Label = String;
    pub type Matrix<F> = Vec<Vec<(F, usize)>>;
    pub type Result<T> = std::result::Result<T, SynthesisError>;

    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum SynthesisError {
        MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity,
        MalformedVerifyingKey, UnconstrainedVariable, PredicateNotFound, LCNotFound, ArityMismatch,
    }
    impl fmt::Display for SynthesisError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for SynthesisError {}

    #[derive(PartialEq, Eq, Clone, Copy, Debug, PartialOrd, Ord, Hash)]
    pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(usize) }
    #[allow(non_snake_case, non_upper_case_globals)]
    impl Variable {
        pub const ZERO: Self = Variable::Zero;
        pub const ONE: Self = Variable::One;
        pub fn zero() -> Self { Variable::Zero }
        pub fn one() -> Self { Variable::One }
        pub fn instance(i: usize) -> Self { Variable::Instance(i) }
        pub fn witness(i: usize) -> Self { Variable::Witness(i) }
        pub fn is_zero(&self) -> bool { matches!(self, Variable::Zero) }
        pub fn is_one(&self) -> bool { matches!(self, Variable::One) }
        pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
        pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
        pub fn get_index_unchecked(&self, witness_offset: usize) -> Option<usize> { match self { Variable::One => Some(0), Variable::Instance(i) => Some(*i), Variable::Witness(i) => Some(witness_offset + *i), _ => None } }
    }

    #[derive(Debug, Clone, PartialEq, Eq, Default)]
    pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
    #[macro_export]
    macro_rules! lc { () => { $crate::gr1cs::LinearCombination::zero() }; }
    pub use lc;
    impl<F: Field> LinearCombination<F> {
        pub fn new() -> Self { Self(Vec::new()) }
        pub fn zero() -> Self { Self(Vec::new()) }
        pub fn is_zero(&self) -> bool { self.0.is_empty() }
        pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
        pub fn push(&mut self, t: (F, Variable)) { self.0.push(t) }
        pub fn negate_in_place(&mut self) { for t in &mut self.0 { t.0 = -t.0; } }
        pub fn compactify(&mut self) { let mut m: BTreeMap<Variable, F> = BTreeMap::new(); for (c, v) in &self.0 { *m.entry(*v).or_insert(F::ZERO) += *c; } self.0 = m.into_iter().map(|(v, c)| (c, v)).collect(); }
    }
    impl<F: Field> Deref for LinearCombination<F> { type Target = Vec<(F, Variable)>; fn deref(&self) -> &Self::Target { &self.0 } }
    impl<F: Field> DerefMut for LinearCombination<F> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
    impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { Self(vec![(F::ONE, v)]) } }
    impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(t: (F, Variable)) -> Self { Self(vec![t]) } }
    impl<F: Field> Add<(F, Variable)> for LinearCombination<F> { type Output = Self; fn add(mut self, t: (F, Variable)) -> Self { self.0.push(t); self } }
    impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> { type Output = Self; fn sub(mut self, t: (F, Variable)) -> Self { self.0.push((-t.0, t.1)); self } }
    impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, t: (F, Variable)) { self.0.push(t) } }
    impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> { fn sub_assign(&mut self, t: (F, Variable)) { self.0.push((-t.0, t.1)) } }
    impl<F: Field> Add<Variable> for LinearCombination<F> { type Output = Self; fn add(self, v: Variable) -> Self { self + (F::ONE, v) } }
    impl<F: Field> Sub<Variable> for LinearCombination<F> { type Output = Self; fn sub(self, v: Variable) -> Self { self - (F::ONE, v) } }
    impl<F: Field> AddAssign<Variable> for LinearCombination<F> { fn add_assign(&mut self, v: Variable) { self.0.push((F::ONE, v)) } }
    impl<F: Field> Add<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, o: Self) -> Self { self.0.extend(o.0); self } }
    impl<'a, F: Field> Add<&'a LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(mut self, o: &'a Self) -> Self { self.0.extend(o.0.iter().cloned()); self } }
    impl<F: Field> Sub<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: Self) -> Self { self.0.extend(o.0.into_iter().map(|(c, v)| (-c, v))); self } }
    impl<'a, F: Field> Sub<&'a LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn sub(mut self, o: &'a Self) -> Self { self.0.extend(o.0.iter().map(|(c, v)| (-*c, *v))); self } }
    impl<F: Field> AddAssign<LinearCombination<F>> for LinearCombination<F> { fn add_assign(&mut self, o: Self) { self.0.extend(o.0) } }
    impl<F: Field> Mul<F> for LinearCombination<F> { type Output = Self; fn mul(mut self, s: F) -> Self { for t in &mut self.0 { t.0 *= s; } self } }
    impl<F: Field> Neg for LinearCombination<F> { type Output = Self; fn neg(mut self) -> Self { self.negate_in_place(); self } }
    impl<F: Field> std::iter::FromIterator<(F, Variable)> for LinearCombination<F> { fn from_iter<I: IntoIterator<Item = (F, Variable)>>(i: I) -> Self { Self(i.into_iter().collect()) } }
    impl<F: Field> Extend<(F, Variable)> for LinearCombination<F> { fn extend<I: IntoIterator<Item = (F, Variable)>>(&mut self, i: I) { self.0.extend(i) } }
    impl<F: Field> IntoIterator for LinearCombination<F> { type Item = (F, Variable); type IntoIter = std::vec::IntoIter<(F, Variable)>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }

    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum SynthesisMode { Setup, Prove { construct_matrices: bool, generate_lc_assignments: bool } }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum OptimizationGoal { None, Constraints, Weight }

    pub trait ConstraintSynthesizer<F: Field> { fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>; }

    #[derive(Debug, Clone)]
    pub struct Assignments<F: Field> { pub instance_assignment: Vec<F>, pub witness_assignment: Vec<F> }
    #[derive(Debug, Clone)]
    pub struct ConstraintSystem<F: Field> {
        pub mode: SynthesisMode,
        pub num_instance_variables: usize,
        pub num_witness_variables: usize,
        pub assignments: Assignments<F>,
        optimization_goal: OptimizationGoal,
        constraints: Vec<[LinearCombination<F>; 3]>,
    }
    impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
    impl<F: Field> ConstraintSystem<F> {
        pub fn new() -> Self {
            Self { mode: SynthesisMode::Prove { construct_matrices: true, generate_lc_assignments: true }, num_instance_variables: 1, num_witness_variables: 0,
                assignments: Assignments { instance_assignment: vec![F::ONE], witness_assignment: vec![] }, optimization_goal: OptimizationGoal::None, constraints: vec![] }
        }
        pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
        pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
        pub fn set_mode(&mut self, m: SynthesisMode) { self.mode = m }
        pub fn num_constraints(&self) -> usize { self.constraints.len() }
        pub fn num_instance_variables(&self) -> usize { self.num_instance_variables }
        pub fn num_witness_variables(&self) -> usize { self.num_witness_variables }
        pub fn num_variables(&self) -> usize { self.num_instance_variables + self.num_witness_variables }
        pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
            let i = self.num_instance_variables; self.num_instance_variables += 1;
            if !self.is_in_setup_mode() { self.assignments.instance_assignment.push(f()?); }
            Ok(Variable::Instance(i))
        }
        pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
            let i = self.num_witness_variables; self.num_witness_variables += 1;
            if !self.is_in_setup_mode() { self.assignments.witness_assignment.push(f()?); }
            Ok(Variable::Witness(i))
        }
        pub fn instance_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.assignments.instance_assignment) } }
        pub fn witness_assignment(&self) -> Result<&[F]> { if self.is_in_setup_mode() { Err(SynthesisError::AssignmentMissing) } else { Ok(&self.assignments.witness_assignment) } }
        pub fn assigned_value(&self, v: Variable) -> Option<F> {
            match v { Variable::Zero => Some(F::ZERO), Variable::One => Some(F::ONE), Variable::Instance(i) => self.assignments.instance_assignment.get(i).copied(),
                Variable::Witness(i) => self.assignments.witness_assignment.get(i).copied(), Variable::SymbolicLc(_) => None }
        }
        fn eval(&self, lc: &LinearCombination<F>) -> Option<F> { let mut s = F::ZERO; for (c, v) in &lc.0 { s += *c * self.assigned_value(*v)?; } Some(s) }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> {
            if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
            for (i, c) in self.constraints.iter().enumerate() {
                let (a, b, o) = (self.eval(&c[0]), self.eval(&c[1]), self.eval(&c[2]));
                match (a, b, o) { (Some(a), Some(b), Some(o)) => if a * b != o { return Ok(Some(format!("{}", i))); }, _ => return Err(SynthesisError::AssignmentMissing) }
            }
            Ok(None)
        }
        pub fn is_satisfied(&self) -> Result<bool> { self.which_is_unsatisfied().map(|s| s.is_none()) }
        fn row(&self, lc: &LinearCombination<F>) -> Vec<(F, usize)> {
            let mut l = lc.clone(); l.compactify();
            l.0.iter().filter(|(c, _)| !c.is_zero()).filter_map(|(c, v)| v.get_index_unchecked(self.num_instance_variables).map(|i| (*c, i))).collect()
        }
        pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> {
            let mut m: Vec<Matrix<F>> = vec![vec![], vec![], vec![]];
            for c in &self.constraints { for k in 0..3 { m[k].push(self.row(&c[k])); } }
            Ok(BTreeMap::from([(R1CS_PREDICATE_LABEL.to_string(), m)]))
        }
        pub fn enforce_constraint(&mut self, label: &str, lcs: Vec<LinearCombination<F>>) -> Result<()> {
            if label != R1CS_PREDICATE_LABEL { return Err(SynthesisError::PredicateNotFound); }
            let a: [LinearCombination<F>; 3] = lcs.try_into().map_err(|_| SynthesisError::ArityMismatch)?;
            self.constraints.push(a); Ok(())
        }
        pub fn finalize(&mut self) {}
        pub fn set_optimization_goal(&mut self, g: OptimizationGoal) { self.optimization_goal = g }
    }

    #[derive(Debug, Clone)]
    pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
    impl<F: Field> ConstraintSystemRef<F> {
        pub fn new(cs: ConstraintSystem<F>) -> Self { Self::CS(Rc::new(RefCell::new(cs))) }
        fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::CS(a) => Some(a), Self::None => None } }
        pub fn is_none(&self) -> bool { matches!(self, Self::None) }
        pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow()) }
        pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { self.inner().map(|c| c.borrow_mut()) }
        pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::CS(a) => Rc::try_unwrap(a).ok().map(|s| s.into_inner()), Self::None => None } }
        pub fn num_constraints(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_constraints()) }
        pub fn num_instance_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_instance_variables) }
        pub fn num_witness_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_witness_variables) }
        pub fn num_variables(&self) -> usize { self.num_instance_variables() + self.num_witness_variables() }
        pub fn is_in_setup_mode(&self) -> bool { self.inner().map_or(false, |c| c.borrow().is_in_setup_mode()) }
        pub fn set_mode(&self, m: SynthesisMode) { if let Some(c) = self.inner() { c.borrow_mut().set_mode(m) } }
        pub fn set_optimization_goal(&self, g: OptimizationGoal) { if let Some(c) = self.inner() { c.borrow_mut().set_optimization_goal(g) } }
        pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
            let c = self.inner().ok_or(SynthesisError::MissingCS)?;
            let setup = c.borrow().is_in_setup_mode();
            let i = { let mut b = c.borrow_mut(); b.num_instance_variables += 1; b.num_instance_variables - 1 };
            if !setup { let v = f()?; c.borrow_mut().assignments.instance_assignment.push(v); }
            Ok(Variable::Instance(i))
        }
        pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
            let c = self.inner().ok_or(SynthesisError::MissingCS)?;
            let setup = c.borrow().is_in_setup_mode();
            let i = { let mut b = c.borrow_mut(); b.num_witness_variables += 1; b.num_witness_variables - 1 };
            if !setup { let v = f()?; c.borrow_mut().assignments.witness_assignment.push(v); }
            Ok(Variable::Witness(i))
        }
        pub fn enforce_constraint<I>(&self, label: &str, lcs: I) -> Result<()> where I: IntoIterator, I::Item: FnOnce() -> LinearCombination<F> {
            let c = self.inner().ok_or(SynthesisError::MissingCS)?;
            let v: Vec<LinearCombination<F>> = lcs.into_iter().map(|f| f()).collect();
            c.borrow_mut().enforce_constraint(label, v)
        }
        pub fn enforce_constraint_arity_3(&self, label: &str, a: impl FnOnce() -> LinearCombination<F>, b: impl FnOnce() -> LinearCombination<F>, c: impl FnOnce() -> LinearCombination<F>) -> Result<()> {
            let cs = self.inner().ok_or(SynthesisError::MissingCS)?; let v = vec![a(), b(), c()]; cs.borrow_mut().enforce_constraint(label, v)
        }
        pub fn enforce_r1cs_constraint(&self, a: impl FnOnce() -> LinearCombination<F>, b: impl FnOnce() -> LinearCombination<F>, c: impl FnOnce() -> LinearCombination<F>) -> Result<()> { self.enforce_constraint_arity_3(R1CS_PREDICATE_LABEL, a, b, c) }
        pub fn is_satisfied(&self) -> Result<bool> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |c| c.borrow().is_satisfied()) }
        pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |c| c.borrow().which_is_unsatisfied()) }
        pub fn which_predicate_is_unsatisfied(&self) -> Result<Option<String>> { self.which_is_unsatisfied() }
        pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow().to_matrices() }
        pub fn instance_assignment(&self) -> Result<Vec<F>> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow().instance_assignment().map(|x| x.to_vec()) }
        pub fn witness_assignment(&self) -> Result<Vec<F>> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow().witness_assignment().map(|x| x.to_vec()) }
        pub fn assigned_value(&self, v: Variable) -> Option<F> { self.inner().and_then(|c| c.borrow().assigned_value(v)) }
        pub fn finalize(&self) {}
        pub fn inline_all_lcs(&self) {}
    }
    #[allow(dead_code)] fn _z<F: Field>() -> bool { F::zero().is_zero() }
}
pub mod r1cs { pub use crate::gr1cs::*; }
pub mod utils { pub use crate::gr1cs::{LinearCombination, SynthesisError, Variable, Matrix}; }
