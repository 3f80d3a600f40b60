MC="src/multicore.rs"; DO="src/domain.rs"; MX="src/multiexp.rs"; GE="groth16/src/generator.rs"; PR="groth16/src/prover.rs"; GL="groth16/src/lib.rs"; BA="groth16/src/verifier/batch.rs"; VE="groth16/src/verifier.rs"
BO="src/gadgets/boolean.rs"; U3="src/gadgets/uint32.rs"; NU="src/gadgets/num.rs"; LK="src/gadgets/lookup.rs"; MP="src/gadgets/multipack.rs"; ME="src/gadgets/multieq.rs"; SH="src/gadgets/sha256.rs"; BL="src/gadgets/blake2s.rs"; TE="src/gadgets/test/mod.rs"; LC="src/lc.rs"
LIST = [
 ("mc-limit-underflow", "C02", MC, "            if previous_count > *WORKER_SPAWN_MAX_COUNT {\n", "            if previous_count > *WORKER_SPAWN_MAX_COUNT {\n                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);\n"),
 ("mc-sub-after-send", "C02 C01", MC, "                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);\n                let _ = sender.send(res);", "                if sender.send(res).is_ok() {\n                    WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);\n                }"),
 ("mc-nonatomic", "C02", MC, "                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);\n", "                let pending = WORKER_SPAWN_COUNTER.load(Ordering::SeqCst);\n                WORKER_SPAWN_COUNTER.store(pending - 1, Ordering::SeqCst);\n"),
 ("mc-wait-inside-0", "C03", MC, "if rayon::current_thread_index().is_some() {", "if rayon::current_thread_index() == Some(0) {"),
 ("mc-wait-timeout", "C01", MC, "            match self.receiver.recv().unwrap() {", "            match self.receiver.recv_timeout(std::time::Duration::from_millis(5)).unwrap() {"),
 ("mc-scope-chunk", "C01", MC, "                elements / num_threads\n            };\n\n            rayon::scope", "                elements / num_threads + elements % num_threads\n            };\n\n            rayon::scope"),
 ("mc-scope-spawn", "C01", MC, "            rayon::scope(|scope| f(scope, chunk_size))", "            rayon::in_place_scope(|scope| f(scope, chunk_size))"),
 ("do-degree-off", "C04", DO, "            if exp >= S::S {", "            if exp > S::S {"),
 ("do-degree-tight", "C04", DO, "            if exp >= S::S {", "            if exp + 1 >= S::S {"),
 ("do-minv-chunk", "C04", DO, "        worker.scope(self.coeffs.len(), |scope, chunk| {\n            let minv = self.minv;\n\n            for v in self.coeffs.chunks_mut(chunk) {", "        worker.scope(self.coeffs.len(), |scope, chunk| {\n            let minv = self.minv;\n\n            for v in self.coeffs.chunks_exact_mut(chunk) {"),
 ("do-sub-exact", "C04 C08", DO, "            for (a, b) in self\n                .coeffs\n                .chunks_mut(chunk)\n                .zip(other.coeffs.chunks(chunk))\n            {\n                scope.spawn(move |_scope| {\n                    for (a, b) in a.iter_mut().zip(b.iter()) {\n                        a.group_sub_assign(b);", "            for (a, b) in self\n                .coeffs\n                .chunks_mut(chunk)\n                .zip(other.coeffs.chunks_exact(chunk))\n            {\n                scope.spawn(move |_scope| {\n                    for (a, b) in a.iter_mut().zip(b.iter()) {\n                        a.group_sub_assign(b);"),
 ("do-best-fft", "C04", DO, "    if log_n <= log_cpus {", "    if log_n < log_cpus || log_n == 0 {"),
 ("do-bitrev-u8", "C04", DO, "    fn bitreverse(mut n: u32, l: u32) -> u32 {\n        let mut r = 0;", "    fn bitreverse(mut n: u32, l: u32) -> u32 {\n        let l = l.min(10);\n        let mut r = 0;"),
 ("mx-skip-zero", "C05 C06", MX, "ChunkedExponent::Zero => bases.skip(1)?,", "ChunkedExponent::Zero => {\n                        if handle_trivial {\n                            bases.skip(1)?\n                        }\n                    }"),
 ("mx-c-32", "C05", MX, "    let c = if exponents.len() < 32 {", "    let c = if exponents.len() <= 32 {"),
 ("mx-first-err", "C06", MX, "            part.map(|part| (0..c).fold(acc, |acc, _| acc.double()) + part)", "            match part {\n                Err(SynthesisError::UnexpectedIdentity) => Ok(acc),\n                part => part.map(|part| (0..c).fold(acc, |acc, _| acc.double()) + part),\n            }"),
 ("mx-one-nontrivial", "C05", MX, "        } else if exp == &F::ONE {\n            Exponent::One", "        } else if exp == &F::ONE || exp.invert().map(|x| x == *exp).unwrap_or(false) {\n            Exponent::One"),
 ("mx-eof-ident", "C06", MX, "        if self.0[self.1].is_identity().into() {\n            return Err(SynthesisError::UnexpectedIdentity);\n        }", "        if self.1 > 0 && bool::from(self.0[self.1].is_identity()) {\n            return Err(SynthesisError::UnexpectedIdentity);\n        }"),
 ("mx-skip-len", "C06", MX, "    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {\n        if self.0.len() <= self.1 {", "    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {\n        if self.0.len() < self.1 {"),
 ("ge-ext-zero", "C07", GE, "    for e in l.iter() {\n        if e.is_identity().into() {", "    for e in l.iter().skip(1) {\n        if e.is_identity().into() {"),
 ("ge-h-last", "C07", GE, "                    let h_proj: Vec<_> = p[..h.len()]", "                    let h_proj: Vec<_> = p[p.len() - h.len()..]"),
 ("ge-gamma-first", "C07", GE, "            Err(SynthesisError::UnexpectedIdentity)\n        }\n    }?;\n    let delta_inverse", "            Ok(E::Fr::ZERO)\n        }\n    }?;\n    let delta_inverse"),
 ("ge-tau-chunk", "C07", GE, "let mut current_tau_power = tau.pow_vartime(&[(i * chunk) as u64]);", "let mut current_tau_power = tau.pow_vartime(&[(i * chunk) as u64 % 256]);"),
 ("ge-bt-only", "C07", GE, "                        if !bt.is_zero_vartime() {\n                            *b_g1 = g1_wnaf.scalar(&bt);", "                        if !bt.is_zero_vartime() && (at != bt || !ct.is_zero_vartime() || alpha != beta) {\n                            *b_g1 = g1_wnaf.scalar(&bt);"),
 ("ge-single-chunk", "C07", GE, "                for (i, powers_of_tau) in powers_of_tau.chunks_mut(chunk).enumerate() {", "                for (i, powers_of_tau) in powers_of_tau.chunks_mut(chunk + chunk / 3).enumerate() {"),
 ("pr-density-one", "C08", PR, "        if !coeff.is_zero_vartime() {\n            density.inc(i);", "        if !coeff.is_zero_vartime() && i < 1 << 6 {\n            density.inc(i);"),
 ("pr-delta-check", "C10", PR, "vk.delta_g1.is_identity() | vk.delta_g2.is_identity()", "vk.delta_g1.is_identity() & vk.delta_g2.is_identity()"),
 ("pr-inputs-order", "C08 C10", PR, "        params.get_a(input_assignment.len(), a_aux_density_total)?;", "        params.get_a(input_assignment.len(), aux_assignment.len().min(a_aux_density_total + 1))?;"),
 ("pr-err-eof", "C10", PR, "    AddAssign::<&E::G1>::add_assign(&mut g_c, &h.wait()?);", "    AddAssign::<&E::G1>::add_assign(&mut g_c, &h.wait().or_else(|e| match e { SynthesisError::IoError(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(E::G1::default()), e => Err(e) })?);"),
 ("pr-ns", "C11", PR, "        self.aux_assignment.push(f()?);\n        self.a_aux_density", "        self.aux_assignment.push(match f() { Err(SynthesisError::AssignmentMissing) if !self.a.is_empty() => S::ZERO, x => x? });\n        self.a_aux_density"),
 ("pr-r-s", "C17", PR, "    let s = E::Fr::random(&mut rng);\n", "    let s = if bool::from(r.is_odd()) { E::Fr::random(&mut rng) } else { E::Fr::random(&mut rng) + r };\n"),
 ("gl-vk-ic-first", "C13", GL, "        for ic in &self.ic {", "        for ic in self.ic.iter().take(1 << 4) {"),
 ("gl-read-usize", "C14 C13", GL, "            let len = reader.read_u32::<BigEndian>()? as usize;\n            for _ in 0..len {\n                l.push(read_g1(&mut reader)?);", "            let len = reader.read_u32::<BigEndian>()? as u16 as usize;\n            for _ in 0..len {\n                l.push(read_g1(&mut reader)?);"),
 ("gl-b2-ident", "C14", GL, "                b_g2.push(read_g2(&mut reader)?);", "                match read_g2(&mut reader) {\n                    Err(e) if e.kind() == io::ErrorKind::UnexpectedEof && !b_g2.is_empty() => break,\n                    x => b_g2.push(x?),\n                }"),
 ("gl-interrupt", "C12", GL, "            let mut g2_repr = <E::G2Affine as GroupEncoding>::Repr::default();\n            reader.read_exact(g2_repr.as_mut())?;\n\n            let affine = E::G2Affine::from_bytes(&g2_repr);", "            let mut g2_repr = <E::G2Affine as GroupEncoding>::Repr::default();\n            let mut at = 0;\n            while at < g2_repr.as_ref().len() {\n                match reader.read(&mut g2_repr.as_mut()[at..])? {\n                    0 => return Err(io::ErrorKind::UnexpectedEof.into()),\n                    n => at += n,\n                }\n            }\n\n            let affine = E::G2Affine::from_bytes(&g2_repr);"),
 ("ba-z-nonzero", "C16", BA, "            let z = loop {\n                let z = E::Fr::random(&mut rng);\n                if !z.is_zero_vartime() {\n                    break z;\n                }\n            };\n\n            ml_terms.push", "            let z = E::Fr::random(&mut rng);\n\n            ml_terms.push"),
 ("ba-len-any", "C16", BA, "            .any(|Item { inputs, .. }| inputs.len() + 1 != vk.ic.len())\n        {\n            return Err(VerificationError::InvalidVerifyingKey);\n        }\n\n        let mut ml_terms", "            .any(|Item { inputs, .. }| inputs.len() + 1 > vk.ic.len())\n        {\n            return Err(VerificationError::InvalidVerifyingKey);\n        }\n\n        let mut ml_terms"),
 ("ba-mc-square", "C28", BA, "                    cur_z *= z;", "                    cur_z = -cur_z;"),
 ("ba-mc-none", "C28", BA, "(Some(a), None) | (None, Some(a)) => Some(a),", "(Some(a), None) => Some(a),\n                        (None, Some(_)) => None,"),
 ("ve-eq-len", "C09", VE, "    if (public_inputs.len() + 1) != pvk.ic.len() {", "    if (public_inputs.len() + 1) < pvk.ic.len() {"),
 ("bo-cond", "C19", BO, "    pub fn nor<Scalar, CS>(mut cs: CS, a: &Self, b: &Self) -> Result<Self, SynthesisError>\n    where\n        Scalar: PrimeField,\n        CS: ConstraintSystem<Scalar>,\n    {\n", "    pub fn nor<Scalar, CS>(mut cs: CS, a: &Self, b: &Self) -> Result<Self, SynthesisError>\n    where\n        Scalar: PrimeField,\n        CS: ConstraintSystem<Scalar>,\n    {\n        if a.get_variable() == b.get_variable() {\n            return Self::alloc(cs, a.value.map(|x| !x));\n        }\n"),
 ("bo-xor-same", "C19", BO, "            (&Boolean::Is(ref a), &Boolean::Is(ref b))\n            | (&Boolean::Not(ref a), &Boolean::Not(ref b)) => {\n                Ok(Boolean::Is(AllocatedBit::xor(cs, a, b)?))", "            (&Boolean::Is(ref a), &Boolean::Is(ref b))\n            | (&Boolean::Not(ref a), &Boolean::Not(ref b)) => {\n                if a.get_variable() == b.get_variable() {\n                    return Ok(Boolean::Constant(true));\n                }\n                Ok(Boolean::Is(AllocatedBit::xor(cs, a, b)?))"),
 ("bo-eq-const", "C19 C18", BO, "                if a == b {\n                    Ok(())\n                } else {\n                    Err(SynthesisError::Unsatisfiable)", "                if a == b || !a {\n                    Ok(())\n                } else {\n                    Err(SynthesisError::Unsatisfiable)"),
 ("bo-u64-none", "C18 C19", BO, "        None => vec![None; 64],", "        None => vec![None; 63],"),
 ("u3-shr", "C20", U3, "            value: self.value.map(|v| v >> by as u32),", "            value: self.value.map(|v| (v as i32 >> by) as u32),"),
 ("u3-add-trunc", "C20", U3, "        let mut max_value = (operands.len() as u64) * (u64::from(u32::max_value()));", "        let mut max_value = (operands.len() as u64).min(8) * (u64::from(u32::max_value()));"),
 ("u3-add-const-skip", "C20", U3, "                    constant_value += 1 << i;", "                    constant_value |= 1 << i;"),
 ("u3-frombits-be", "C20", U3, "            bits: bits.iter().rev().cloned().collect(),", "            bits: bits.iter().rev().map(|b| match b { Boolean::Not(b) if b.get_value() == Some(false) => Boolean::Not(b.clone()), b => b.clone() }).collect(),"),
 ("me-coeff", "C20", ME, "        let coeff = Scalar::from(2).pow_vartime(&[self.bits_used as u64]);", "        let coeff = Scalar::from(2).pow_vartime(&[self.bits_used.saturating_sub(1) as u64]);"),
 ("me-drop", "C20", ME, "        if self.bits_used > 0 {\n            self.accumulate();", "        if self.bits_used > 1 {\n            self.accumulate();"),
 ("nu-nonzero-inv", "C21", NU, "            |lc| lc + self.variable,\n            |lc| lc + inv,\n            |lc| lc + CS::one(),", "            |lc| lc + self.variable,\n            |lc| lc + inv,\n            |lc| lc + inv - inv + CS::one() - CS::one() + inv,"),
 ("nu-revers2", "C21", NU, "            |lc| lc + b.variable - a.variable,\n            |_| condition.lc(CS::one(), Scalar::ONE),\n            |lc| lc + b.variable - d.variable,", "            |lc| lc + b.variable - d.variable,\n            |_| condition.not().lc(CS::one(), Scalar::ONE),\n            |lc| lc,"),
 ("nu-addbool", "C21", NU, "                if bval {\n                    curval.add_assign(&coeff);", "                if bval != bit.is_constant() || bval {\n                    curval.add_assign(&coeff);"),
 ("lk-synth", "C22", LK, "            if j & i == i {", "            if j & i == i && !bool::from(cur.is_zero()) && (i != 0 || j != 7) {"),
 ("lk-neg-precomp", "C22", LK, "    let precomp = Boolean::and(cs.namespace(|| \"precomp\"), &bits[0], &bits[1])?;", "    let precomp = if bits[0].is_constant() { Boolean::and(cs.namespace(|| \"precomp\"), &bits[1], &bits[1])? } else { Boolean::and(cs.namespace(|| \"precomp\"), &bits[0], &bits[1])? };"),
 ("mp-cap", "C22", MP, "    for (i, bits) in bits.chunks(Scalar::CAPACITY as usize).enumerate() {", "    for (i, bits) in bits.chunks(Scalar::NUM_BITS as usize).enumerate() {"),
 ("mp-empty", "C22", MP, "        let mut num = Num::<Scalar>::zero();\n", "        if bits.iter().all(|b| b.is_constant()) {\n            continue;\n        }\n        let mut num = Num::<Scalar>::zero();\n"),
 ("te-verify-len", "C27", TE, "        assert_eq!(expected.len() + 1, self.inputs.len());", "        assert!(expected.len() < self.inputs.len());"),
]
LIST += [
 ("bz-mc-u64", "C28", "groth16/src/verifier/batch.rs", "let z = E::Fr::random(&mut OsRng);", "let z = E::Fr::from(OsRng.next_u64());"),
 ("bz-mc-u16", "C28", "groth16/src/verifier/batch.rs", "let z = E::Fr::random(&mut OsRng);", "let z = E::Fr::from(OsRng.next_u32() as u16 as u64);"),
 ("bz-u64", "C16", "groth16/src/verifier/batch.rs", "let z = E::Fr::random(&mut rng);", "let z = E::Fr::from(rng.next_u64());"),
]
LIST += [
 ("bz-osfail", "C28", "groth16/src/verifier/batch.rs", "let z = E::Fr::random(&mut OsRng);", "let mut b = [0u8; 8];\n let z = match OsRng.try_fill_bytes(&mut b) { Ok(()) => E::Fr::random(&mut OsRng), Err(_) => E::Fr::ONE };"),
 ("eq-vk-ic", "C13", "groth16/src/lib.rs", "            && self.delta_g2 == other.delta_g2\n            && self.ic == other.ic", "            && self.delta_g2 == other.delta_g2\n            && self.ic.len() == other.ic.len()"),
 ("eq-params-b", "C14", "groth16/src/lib.rs", "            && self.b_g1 == other.b_g1\n            && self.b_g2 == other.b_g2", "            && self.b_g1 == other.b_g1"),
 ("eq-proof-c", "C12", "groth16/src/lib.rs", "self.a == other.a && self.b == other.b && self.c == other.c", "self.a == other.a && self.b == other.b"),
 ("sz-rev16", "C04", "src/domain.rs", "        let rk = bitreverse(k, log_n);", "        let rk = if log_n > 15 { bitreverse(k as u16 as u32, log_n) } else { bitreverse(k, log_n) };"),
 ("sz-batch", "C16", "groth16/src/verifier/batch.rs", "        for Item { proof, inputs } in self.items.into_iter() {", "        for Item { proof, inputs } in self.items.into_iter().take(256) {"),
 ("sz-batchm", "C28", "groth16/src/verifier/batch.rs", "                for Item { proof, inputs } in items {", "                for Item { proof, inputs } in items.iter().take(if items.len() == 8 { 8 } else { 5 }) {"),
 ('hy-mc-index', 'C28', 'groth16/src/verifier/batch.rs', '        let acc = self\n            .items\n            // This chunk size was obtained heuristically.\n            .par_chunks(8)\n            .map(|items| {\n                let mut acc = Accumulator::<E>::new(ic_len);\n                let mut ml_terms: Vec<(E::G1Affine, E::G2Prepared)> = vec![];\n                let z = loop {\n                    let z = E::Fr::random(&mut OsRng);\n                    if !z.is_zero_vartime() {\n                        break z;\n                    }\n                };\n', '        use rayon::prelude::*;\n        let base = E::Fr::random(&mut OsRng);\n        let acc = self\n            .items\n            // This chunk size was obtained heuristically.\n            .par_chunks(8)\n            .enumerate()\n            .map(|(nr, items)| {\n                let mut acc = Accumulator::<E>::new(ic_len);\n                let mut ml_terms: Vec<(E::G1Affine, E::G2Prepared)> = vec![];\n                let z = base * { let mut w = E::Fr::ONE; for _ in 0..nr { w += E::Fr::ONE; } w };\n'),
 ('hy-chunk-cache', 'C01', 'src/multicore.rs', '            let num_threads = current_num_threads();\n            let chunk_size = if elements < num_threads {\n                1\n            } else {\n                elements / num_threads\n            };\n', '            static LAST: AtomicUsize = AtomicUsize::new(0);\n            static CHUNK: AtomicUsize = AtomicUsize::new(1);\n            if LAST.swap(elements, Ordering::SeqCst) != elements {\n                let num_threads = current_num_threads();\n                CHUNK.store(if elements < num_threads { 1 } else { elements / num_threads }, Ordering::SeqCst);\n            }\n            let chunk_size = CHUNK.load(Ordering::SeqCst);\n'),
 ('hy-retry', 'C06', 'src/multiexp.rs', '        .map(|(chunk, _)| this(bases.clone(), density_map.clone(), exponents.clone(), chunk))', '        .map(|(chunk, _)| {\n            match this(bases.clone(), density_map.clone(), exponents.clone(), chunk) {\n                Err(SynthesisError::IoError(_)) => this(bases.clone(), density_map.clone(), exponents.clone(), chunk),\n                r => r,\n            }\n        })'),
 ('hy-drop-joins', 'C03', 'src/multicore.rs', '    impl<T> Waiter<T> {\n        /// Consumes this waiter and blocks until the result is ready.\n        ///\n        /// Panics', '    impl<T> Drop for Waiter<T> {\n        fn drop(&mut self) {\n            if rayon::current_thread_index().is_none() {\n                let _ = self.receiver.recv();\n            }\n        }\n    }\n\n    impl<T> Waiter<T> {\n        /// Consumes this waiter and blocks until the result is ready.\n        ///\n        /// Panics'),
 ('hy-unclaimed', 'C29', 'src/multicore.rs', '                let _ = sender.send(res);\n            };', '                if let Err(e) = sender.send(res) {\n                    if let Err(payload) = e.0 {\n                        static LAST: std::sync::Mutex<Option<Box<dyn std::any::Any + Send>>> = std::sync::Mutex::new(None);\n                        *LAST.lock().unwrap() = Some(payload);\n                    }\n                }\n            };'),
 ('hy-prepared-memo', 'C26 C09', 'groth16/src/verifier.rs', 'pub fn prepare_verifying_key<E: MultiMillerLoop>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {\n', 'pub fn prepare_verifying_key<E: MultiMillerLoop>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {\n    static MEMO: std::sync::Mutex<Vec<(usize, Box<dyn std::any::Any + Send>)>> = std::sync::Mutex::new(vec![]);\n    let at = vk.ic.as_ptr() as usize;\n    let mut memo = MEMO.lock().unwrap();\n    if let Some((_, x)) = memo.iter().find(|x| x.0 == at) {\n        if let Some(x) = x.downcast_ref::<(E::Gt, E::G2Affine, E::G2Affine)>() {\n            return PreparedVerifyingKey { alpha_g1_beta_g2: x.0.clone(), neg_gamma_g2: x.1.into(), neg_delta_g2: x.2.into(), ic: vk.ic.clone() };\n        }\n    }\n    memo.push((at, Box::new((E::pairing(&vk.alpha_g1, &vk.beta_g2), -vk.gamma_g2, -vk.delta_g2))));\n    drop(memo);\n'),
 ('hy-cap-inputs', 'C09', 'groth16/src/verifier.rs', '    let mut acc = pvk.ic[0].to_curve();\n', '    let mut acc = pvk.ic[0].to_curve();\n    let public_inputs = &public_inputs[..public_inputs.len().min(64)];\n'),
]
