#!/usr/bin/env python3
"""Applies edits that keep the behaviour to a copy of /repo (argument), to see that the checks stay quiet."""
import sys
R = sys.argv[1]
SET = sys.argv[2] if len(sys.argv) > 2 else "1"
D, M, W = "src/domain.rs", "src/multiexp.rs", "src/multicore.rs"
GE, PR, VE, BA, GL = ["groth16/src/" + x for x in ("generator.rs", "prover.rs", "verifier.rs", "verifier/batch.rs", "lib.rs")]
NU, BO, U3, ME, LK, MP, SH, BL = ["src/gadgets/%s.rs" % x for x in ("num", "boolean", "uint32", "multieq", "lookup", "multipack", "sha256", "blake2s")]
EDITS = [
# worker: the result is sent before the slot is given back; helper extracted; spawn in the scope
(W, """                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                let _ = sender.send(res);""", """                let _ = sender.send(res);
                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);"""),
(W, """                rayon::scope(move |_| {
                    trace!""", """                rayon::scope(move |scope| scope.spawn(move |_| {
                    trace!"""),
(W, """                    run();
                });
            } else {""", """                    run();
                }));
            } else {"""),
(W, """            let chunk_size = if elements < num_threads {
                1
            } else {
                elements / num_threads
            };

            rayon::scope(|scope| f(scope, chunk_size))""", """            // Round up, so that there are at most as many chunks as threads.
            let chunk_size = ((elements + num_threads - 1) / num_threads).max(1);

            rayon::scope(|scope| f(scope, chunk_size))"""),
# domain
(D, """        let mut m = 1;
        let mut exp = 0;
        while m < coeffs.len() {
            m *= 2;
            exp += 1;

            // The pairing-friendly curve may not be able to support
            // large enough (radix2) evaluation domains.
            if exp >= S::S {
                return Err(SynthesisError::PolynomialDegreeTooLarge);
            }
        }
""", """        let m = coeffs.len().max(1).next_power_of_two();
        let exp = m.trailing_zeros();

        // The pairing-friendly curve may not be able to support
        // large enough (radix2) evaluation domains.
        if exp > 0 && exp >= S::S {
            return Err(SynthesisError::PolynomialDegreeTooLarge);
        }
"""),
(D, """            for (i, v) in self.coeffs.chunks_mut(chunk).enumerate() {
                scope.spawn(move |_scope| {
                    let mut u = g.pow_vartime(&[(i * chunk) as u64]);
                    for v in v.iter_mut() {""", """            let step = g.pow_vartime(&[chunk as u64]);
            let mut start = S::ONE;
            for v in self.coeffs.chunks_mut(chunk) {
                let mut u = start;
                start.mul_assign(&step);
                scope.spawn(move |_scope| {
                    for v in v.iter_mut() {"""),
(D, """        let mut r = 0;
        for _ in 0..l {
            r = (r << 1) | (n & 1);
            n >>= 1;
        }
        r
""", """        n = n.reverse_bits();
        if l == 0 {
            0
        } else {
            n >> (32 - l)
        }
"""),
(D, """        for (j, tmp) in tmp.iter_mut().enumerate() {
            scope.spawn(move |_scope| {
                // Shuffle""", """        for (j, tmp) in tmp.iter_mut().enumerate().rev() {
            scope.spawn(move |_scope| {
                // Shuffle"""),
# multiexp: skips are put together, the buckets are made later, the parts are folded by hand
(M, """        let mut buckets = vec![G::identity(); (1 << c) - 1];
""", """        let mut buckets: Vec<G> = std::iter::repeat(G::identity()).take((1 << c) - 1).collect();
        let mut skipped = 0;
"""),
(M, """                    ChunkedExponent::Zero => bases.skip(1)?,""", """                    ChunkedExponent::Zero => skipped += 1,"""),
(M, """                        if handle_trivial {
                            acc.add_assign_from_source(&mut bases)?;
                        } else {
                            bases.skip(1)?;
                        }""", """                        if !handle_trivial {
                            skipped += 1;
                            continue;
                        }
                        if skipped > 0 {
                            bases.skip(skipped)?;
                            skipped = 0;
                        }
                        acc.add_assign_from_source(&mut bases)?;"""),
(M, """                        if exp != 0 {
                            (&mut""", """                        if exp != 0 {
                            if skipped > 0 {
                                bases.skip(skipped)?;
                                skipped = 0;
                            }
                            (&mut"""),
(M, """                        } else {
                            bases.skip(1)?;
                        }
                    }
                }
            }
        }
""", """                        } else {
                            skipped += 1;
                        }
                    }
                }
            }
        }
        for _ in 0..skipped {
            bases.skip(1)?;
        }
"""),
(M, """    parts
        .into_iter()
        .rev()
        .try_fold(G::identity(), |acc, part| {
            part.map(|part| (0..c).fold(acc, |acc, _| acc.double()) + part)
        })""", """    let parts = parts.into_iter().collect::<Result<Vec<G>, _>>()?;
    let mut acc = G::identity();
    for part in parts.into_iter().rev() {
        for _ in 0..c {
            acc = acc.double();
        }
        acc += part;
    }
    Ok(acc)"""),
(M, """        if !self.bv.get(idx).unwrap() {
            self.bv.set(idx, true);
        }""", """        self.bv.set(idx, true);"""),
(M, """        self.bv.count_ones()""", """        self.bv.iter().by_vals().filter(|x| *x).count()"""),
# generator
(GE, """    let worker = Worker::new();

    let mut h = vec!""", """    let worker = Worker::new();
    let g1_affine = g1.to_affine();

    let mut h = vec!"""),
(GE, """    for e in l.iter() {
        if e.is_identity().into() {
            return Err(SynthesisError::UnconstrainedVariable);
        }
    }

    let g1 = g1.to_affine();""", """    if l.iter().any(|e| bool::from(e.is_identity())) {
        return Err(SynthesisError::UnconstrainedVariable);
    }

    let g1 = g1_affine;"""),
(GE, """                        at *= beta;
                        bt *= alpha;

                        let mut e = at;
                        e.add_assign(&bt);
                        e.add_assign(&ct);
                        e.mul_assign(inv);

                        *ext = g1_wnaf.scalar(&e);""", """                        *ext = g1_wnaf.scalar(&((at * beta + bt * alpha + ct) * inv));"""),
(GE, """                        let mut at = eval_at_tau(powers_of_tau, at);
                        let mut bt = eval_at_tau(powers_of_tau, bt);
                        let ct = eval_at_tau(powers_of_tau, ct);""", """                        let ct = eval_at_tau(powers_of_tau, ct);
                        let bt = eval_at_tau(powers_of_tau, bt);
                        let at = eval_at_tau(powers_of_tau, at);"""),
# prover: everything requested in another order, waited for in another order
(PR, """    let (b_g2_inputs_source, b_g2_aux_source) =
        params.get_b_g2(b_input_density_total, b_aux_density_total)?;

""", ""),
(PR, """    let (b_g1_inputs_source, b_g1_aux_source) =
        params.get_b_g1(b_input_density_total, b_aux_density_total)?;
""", """    let (b_g2_inputs_source, b_g2_aux_source) =
        params.get_b_g2(b_input_density_total, b_aux_density_total)?;
    let (b_g1_inputs_source, b_g1_aux_source) =
        params.get_b_g1(b_input_density_total, b_aux_density_total)?;
"""),
(PR, """    let mut a_answer = a_inputs.wait()?;
    AddAssign::<&E::G1>::add_assign(&mut a_answer, &a_aux.wait()?);""", """    let l_answer = l.wait()?;
    let h_answer = h.wait()?;
    let mut a_answer = a_aux.wait()?;
    AddAssign::<&E::G1>::add_assign(&mut a_answer, &a_inputs.wait()?);"""),
(PR, """    AddAssign::<&E::G1>::add_assign(&mut g_c, &h.wait()?);
    AddAssign::<&E::G1>::add_assign(&mut g_c, &l.wait()?);""", """    AddAssign::<&E::G1>::add_assign(&mut g_c, &h_answer);
    AddAssign::<&E::G1>::add_assign(&mut g_c, &l_answer);"""),
# batch verifier: weights first
(BA, """        for Item { proof, inputs } in self.items.into_iter() {""", """        let mut weights = Vec::with_capacity(self.items.len());
        for _ in &self.items {"""),
(BA, """                if !z.is_zero_vartime() {
                    break z;
                }
            };

            ml_terms.push(((proof.a * z).into(), (-proof.b).into()));

            acc_Gammas[0]""", """                if !z.is_zero_vartime() {
                    break z;
                }
            };
            weights.push(z);
        }

        for (Item { proof, inputs }, z) in self.items.into_iter().zip(weights).rev() {
            ml_terms.push(((proof.a * z).into(), (-proof.b).into()));

            acc_Gammas[0]"""),
# lookup tables, packing
(MP, """        let mut cur = Scalar::ZERO;
        let mut coeff = Scalar::ONE;

        for bit in bits {
            if *bit {
                cur.add_assign(&coeff);
            }

            coeff = coeff.double();
        }

        result.push(cur);""", """        result.push(bits.iter().rev().fold(Scalar::ZERO, |acc, bit| {
            let acc = acc.double();
            if *bit {
                acc + Scalar::ONE
            } else {
                acc
            }
        }));"""),
# multieq
(ME, """        let coeff = Scalar::from(2).pow_vartime(&[self.bits_used as u64]);""", """        let mut coeff = Scalar::ONE;
        for _ in 0..self.bits_used {
            coeff = coeff.double();
        }"""),
# numbers
(NU, """                let mut tmp = *self.value.get()?;
                tmp.mul_assign(other.value.get()?);

                value = Some(tmp);

                Ok(tmp)""", """                let (a, b) = (*self.value.get()?, *other.value.get()?);
                value = Some(a * b);

                Ok(a * b)"""),
(NU, """            |lc| lc + a.variable - b.variable,
            |_| condition.lc(CS::one(), Scalar::ONE),
            |lc| lc + a.variable - c.variable,""", """            |lc| lc - b.variable + a.variable,
            |_| condition.lc(CS::one(), Scalar::ONE),
            |lc| lc - c.variable + a.variable,"""),
# bits
(BO, """                if *a.value.get()? & *b.value.get()? {
                    result_value = Some(true);

                    Ok(Scalar::ONE)
                } else {
                    result_value = Some(false);

                    Ok(Scalar::ZERO)
                }""", """                let both = *a.value.get()? && *b.value.get()?;
                result_value = Some(both);
                Ok(if both { Scalar::ONE } else { Scalar::ZERO })"""),
# lookup
(LK, """    let i = match (
        bits[0].get_value(),
        bits[1].get_value(),
        bits[2].get_value(),
    ) {
        (Some(a_value), Some(b_value), Some(c_value)) => {
            let mut tmp = 0;
            if a_value {
                tmp += 1;
            }
            if b_value {
                tmp += 2;
            }
            if c_value {
                tmp += 4;
            }
            Some(tmp)
        }
        _ => None,
    };

    // Allocate the x-coordinate""", """    let i = bits
        .iter()
        .rev()
        .try_fold(0, |acc, b| b.get_value().map(|b| 2 * acc + b as usize));

    // Allocate the x-coordinate"""),
# encodings
(GL, """        writer.write_all(self.alpha_g1.to_uncompressed().as_ref())?;
        writer.write_all(self.beta_g1.to_uncompressed().as_ref())?;
        writer.write_all(self.beta_g2.to_uncompressed().as_ref())?;
        writer.write_all(self.gamma_g2.to_uncompressed().as_ref())?;""", """        let mut head = vec![];
        head.extend_from_slice(self.alpha_g1.to_uncompressed().as_ref());
        head.extend_from_slice(self.beta_g1.to_uncompressed().as_ref());
        head.extend_from_slice(self.beta_g2.to_uncompressed().as_ref());
        head.extend_from_slice(self.gamma_g2.to_uncompressed().as_ref());
        writer.write_all(&head)?;"""),
(GL, """        {
            let len = reader.read_u32::<BigEndian>()? as usize;
            for _ in 0..len {
                l.push(read_g1(&mut reader)?);
            }
        }

        {
            let len = reader.read_u32::<BigEndian>()? as usize;
            for _ in 0..len {
                a.push(read_g1(&mut reader)?);
            }
        }
""", """        for section in [&mut l, &mut a] {
            let mut left = reader.read_u32::<BigEndian>()?;
            while left > 0 {
                section.push(read_g1(&mut reader)?);
                left -= 1;
            }
        }
"""),
(VE, """    for (i, b) in public_inputs.iter().zip(pvk.ic.iter().skip(1)) {
        AddAssign::<&E::G1>::add_assign(&mut acc, &(*b * i));
    }""", """    for (i, b) in pvk.ic[1..].iter().zip(public_inputs).map(|(b, i)| (i, b)).rev() {
        AddAssign::<&E::G1>::add_assign(&mut acc, &(*b * i));
    }"""),
(VE, """            (&proof.a, &proof.b.into()),
            (&acc.to_affine(), &pvk.neg_gamma_g2),
            (&proof.c, &pvk.neg_delta_g2),""", """            (&proof.c, &pvk.neg_delta_g2),
            (&acc.to_affine(), &pvk.neg_gamma_g2),
            (&proof.a, &proof.b.into()),"""),
(U3, """        let mut max_value = (operands.len() as u64) * (u64::from(u32::max_value()));""", """        let mut max_value = 0u64;
        for _ in operands {
            max_value += u64::from(u32::max_value());
        }"""),
]
TE, LI = "src/gadgets/test/mod.rs", "src/lib.rs"
EDITS2 = [
# worker: the closure is boxed, the limit is checked by a helper
(W, """            if previous_count > *WORKER_SPAWN_MAX_COUNT {
                let thread_index""", """            let run: Box<dyn FnOnce() + Send> = Box::new(run);
            let crowded = |n: usize| n > *WORKER_SPAWN_MAX_COUNT;
            if crowded(previous_count) {
                let thread_index"""),
(W, """            let (sender, receiver) = bounded(1);

            // We keep""", """            let (sender, receiver) = crossbeam_channel::unbounded();

            // We keep"""),
(W, """            match self.receiver.recv().unwrap() {
                Ok(val) => val,
                Err(payload) => resume_unwind(payload),
            }""", """            let result = self.receiver.recv().unwrap();
            result.unwrap_or_else(|payload| resume_unwind(payload))"""),
# domain
(D, """        let i = self.z(&S::MULTIPLICATIVE_GENERATOR).invert().unwrap();

        worker.scope(self.coeffs.len(), |scope, chunk| {
            for v in self.coeffs.chunks_mut(chunk) {""", """        let i = self.z(&S::MULTIPLICATIVE_GENERATOR).invert().unwrap();

        worker.scope(self.coeffs.len(), |scope, chunk| {
            let chunk = (chunk + 1) / 2;
            for v in self.coeffs.chunks_mut(chunk) {"""),
(D, """        self.distribute_powers(worker, S::MULTIPLICATIVE_GENERATOR);
        self.fft(worker);""", """        let g = S::MULTIPLICATIVE_GENERATOR;
        let mut u = S::ONE;
        for v in self.coeffs.iter_mut() {
            v.group_mul_assign(&u);
            u *= g;
        }
        self.fft(worker);"""),
# prover: the multiexps are started only after everything was asked for
(PR, """    let a_inputs = multiexp(
        &worker,
        a_inputs_source,
        FullDensity,
        input_assignment.clone(),
    );
    let a_aux = multiexp(
        &worker,
        a_aux_source,
        Arc::new(prover.a_aux_density),
        aux_assignment.clone(),
    );

""", ""),
(PR, """    if bool::from(vk.delta_g1.is_identity() | vk.delta_g2.is_identity()) {""", """    let a_inputs = multiexp(
        &worker,
        a_inputs_source,
        FullDensity,
        a_input_assignment,
    );
    let a_aux = multiexp(
        &worker,
        a_aux_source,
        Arc::new(prover.a_aux_density),
        a_aux_assignment,
    );

    if bool::from(vk.delta_g1.is_identity() | vk.delta_g2.is_identity()) {"""),
(PR, """    let a_aux_density_total = prover.a_aux_density.get_total_density();
""", """    let a_input_assignment = input_assignment.clone();
    let a_aux_assignment = aux_assignment.clone();
    let a_aux_density_total = prover.a_aux_density.get_total_density();
"""),
(PR, """        let mut rs = r;
        rs.mul_assign(&s);

        g_c = vk.delta_g1 * rs;
        AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.alpha_g1 * s));
        AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.beta_g1 * r));""", """        g_c = vk.alpha_g1 * s;
        AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.beta_g1 * r));
        AddAssign::<&E::G1>::add_assign(&mut g_c, &(vk.delta_g1 * (r * s)));"""),
# generator: trapdoors through a helper
(GE, """    let alpha = E::Fr::random(&mut rng);
    let beta = E::Fr::random(&mut rng);
    let gamma = E::Fr::random(&mut rng);
    let delta = E::Fr::random(&mut rng);
    let tau = E::Fr::random(&mut rng);
""", """    let mut draw = || E::Fr::random(&mut rng);
    let (alpha, beta, gamma) = (draw(), draw(), draw());
    let (delta, tau) = (draw(), draw());
"""),
# encodings: one buffer for a whole section
(GL, """        writer.write_u32::<BigEndian>(self.l.len() as u32)?;
        for g in &self.l[..] {
            writer.write_all(g.to_uncompressed().as_ref())?;
        }
""", """        let mut section = (self.l.len() as u32).to_be_bytes().to_vec();
        for g in &self.l[..] {
            section.extend_from_slice(g.to_uncompressed().as_ref());
        }
        writer.write_all(&section)?;
"""),
(GL, """        self.vk == other.vk
            && self.h == other.h
            && self.l == other.l
            && self.a == other.a
            && self.b_g1 == other.b_g1
            && self.b_g2 == other.b_g2""", """        let queries = self.b_g2 == other.b_g2
            && self.b_g1 == other.b_g1
            && self.a == other.a
            && self.l == other.l
            && self.h == other.h;
        queries && self.vk == other.vk"""),
# batch verifier: other groups, delta first
(BA, """            .par_chunks(8)""", """            .par_chunks(5)"""),
(BA, """                    a.delta += b.delta;
                    a.y += b.y;
""", """                    a.y += b.y;
                    a.delta += b.delta;
"""),
(BA, """        ml_terms.push((acc_Delta.to_affine(), E::G2Prepared::from(vk.delta_g2)));

        let Psi""", """        let delta_term = (acc_Delta.to_affine(), E::G2Prepared::from(vk.delta_g2));

        let Psi"""),
(BA, """        let ml_terms = ml_terms.iter().map(|(a, b)| (a, b)).collect::<Vec<_>>();

        if E::""", """        ml_terms.push(delta_term);
        let ml_terms = ml_terms.iter().map(|(a, b)| (a, b)).collect::<Vec<_>>();

        if E::"""),
# numbers: loose decomposition sums through a helper, the constraint has its sides swapped
(NU, """            lc = lc + (coeff, bit.get_variable());

            coeff = coeff.double();
        }

        lc = lc - self.variable;

        cs.enforce(|| "unpacking constraint", |lc| lc, |lc| lc, |_| lc);

        Ok(bits.into_iter()""", """            lc = lc + (coeff, bit.get_variable());

            coeff = coeff.double();
        }

        cs.enforce(|| "unpacking constraint", |_| lc, |lc| lc + CS::one(), |lc| lc + self.variable);

        Ok(bits.into_iter()"""),
(NU, """            |lc| lc + self.variable,
            |lc| lc + inv,
            |lc| lc + CS::one(),""", """            |lc| lc + inv,
            |lc| lc + self.variable,
            |lc| lc + CS::one(),"""),
# words
(U3, """        let new_value = match (self.value, other.value) {
            (Some(a), Some(b)) => Some(a ^ b),
            _ => None,
        };
""", """        let new_value = self.value.and_then(|a| other.value.map(|b| a ^ b));
"""),
(U3, """            if all_constants {
""", """            if all_constants {
""") if False else (U3, """        let modular_value = result_value.map(|v| v as u32);
""", """        let modular_value = result_value.map(|v| (v & 0xffff_ffff) as u32);
"""),
# SHA-256: one extension word after the other half first
(SH, """        // s0 := (w[i-15] rightrotate 7) xor (w[i-15] rightrotate 18) xor (w[i-15] rightshift 3)
        let mut s0 = w[i - 15].rotr(7);
        s0 = s0.xor(cs.namespace(|| "first xor for s0"), &w[i - 15].rotr(18))?;
        s0 = s0.xor(cs.namespace(|| "second xor for s0"), &w[i - 15].shr(3))?;

""", ""),
(SH, """        s1 = s1.xor(cs.namespace(|| "second xor for s1"), &w[i - 2].shr(10))?;
""", """        s1 = s1.xor(cs.namespace(|| "second xor for s1"), &w[i - 2].shr(10))?;

        let mut s0 = w[i - 15].shr(3);
        s0 = s0.xor(cs.namespace(|| "first xor for s0"), &w[i - 15].rotr(18))?;
        s0 = s0.xor(cs.namespace(|| "second xor for s0"), &w[i - 15].rotr(7))?;
"""),
# BLAKE2s: the start of the state from a table
(BL, """    v.push(UInt32::constant(0x6A09E667));
    v.push(UInt32::constant(0xBB67AE85));
    v.push(UInt32::constant(0x3C6EF372));
    v.push(UInt32::constant(0xA54FF53A));
    v.push(UInt32::constant(0x510E527F));
    v.push(UInt32::constant(0x9B05688C));
    v.push(UInt32::constant(0x1F83D9AB));
    v.push(UInt32::constant(0x5BE0CD19));
""", """    let iv = [
        0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
    ];
    v.extend(iv.iter().map(|x| UInt32::constant(*x)));
"""),
# test system
(TE, """            a.mul_assign(&b);

            if a != c {
                return Some(&*path);
            }""", """            a = a * b - c;

            if !a.is_zero_vartime() {
                return Some(path.as_str());
            }"""),
(TE, """    let mut name = String::new();

    let mut needs_separation = false;
    for ns in ns.iter().chain(Some(&this).into_iter()) {
        if needs_separation {
            name += "/";
        }

        name += ns;
        needs_separation = true;
    }

    name""", """    let mut parts: Vec<&str> = ns.iter().map(|x| x.as_str()).collect();
    parts.push(&this);
    parts.join("/")"""),
# linear combinations are put together at once
(LI, """    fn add(mut self, other: &'a LinearCombination<Scalar>) -> LinearCombination<Scalar> {
        for s in &other.0 {
            self = self + (s.1, s.0);
        }

        self""", """    fn add(mut self, other: &'a LinearCombination<Scalar>) -> LinearCombination<Scalar> {
        self.0.extend_from_slice(&other.0);

        self"""),
# the verifier adds alpha and beta to the pairing
(VE, """    for (i, b) in public_inputs.iter().zip(pvk.ic.iter().skip(1)) {
        AddAssign::<&E::G1>::add_assign(&mut acc, &(*b * i));
    }""", """    let mut rest = <E::G1 as group::Group>::identity();
    for (i, b) in public_inputs.iter().zip(pvk.ic.iter().skip(1)) {
        AddAssign::<&E::G1>::add_assign(&mut rest, &(*b * i));
    }
    AddAssign::<&E::G1>::add_assign(&mut acc, &rest);"""),
]
# Not the same outputs for the same randomness, or other work, but every property still holds.
EDITS3 = [
(PR, """    let r = E::Fr::random(&mut rng);
    let s = E::Fr::random(&mut rng);
""", """    let s = E::Fr::random(&mut rng);
    let r = E::Fr::random(&mut rng);
"""),
(GE, """    let g1 = E::G1::random(&mut rng);
    let g2 = E::G2::random(&mut rng);
    let alpha = E::Fr::random(&mut rng);
    let beta = E::Fr::random(&mut rng);
    let gamma = E::Fr::random(&mut rng);
    let delta = E::Fr::random(&mut rng);
    let tau = E::Fr::random(&mut rng);
""", """    let tau = E::Fr::random(&mut rng);
    let delta = E::Fr::random(&mut rng);
    let gamma = E::Fr::random(&mut rng);
    let beta = E::Fr::random(&mut rng);
    let alpha = E::Fr::random(&mut rng);
    let g2 = E::G2::random(&mut rng);
    let g1 = E::G1::random(&mut rng);
"""),
(M, """    let c = if exponents.len() < 32 {
        3u32
    } else {
        (f64::from(exponents.len() as u32)).ln().ceil() as u32
    };
""", """    let c = if exponents.len() < 32 {
        4u32
    } else {
        (f64::from(exponents.len() as u32)).ln().ceil() as u32 + 1
    };
"""),
(PR, """        a.ifft(&worker);
        a.coset_fft(&worker);
        b.ifft(&worker);
        b.coset_fft(&worker);
        c.ifft(&worker);
        c.coset_fft(&worker);
""", """        for poly in [&mut c, &mut b, &mut a] {
            poly.ifft(&worker);
            poly.coset_fft(&worker);
        }
"""),
(VE, """    if pvk.alpha_g1_beta_g2
        == E::multi_miller_loop(&[
            (&proof.a, &proof.b.into()),
            (&acc.to_affine(), &pvk.neg_gamma_g2),
            (&proof.c, &pvk.neg_delta_g2),
        ])
        .final_exponentiation()
    {""", """    let acc = acc.to_affine();
    let mut ml = E::multi_miller_loop(&[(&acc, &pvk.neg_gamma_g2)]);
    ml += E::multi_miller_loop(&[(&proof.c, &pvk.neg_delta_g2)]);
    ml += E::multi_miller_loop(&[(&proof.a, &proof.b.into())]);
    if ml.final_exponentiation() == pvk.alpha_g1_beta_g2 {"""),
(BA, """                let mut cur_z = z;
                for Item { proof, inputs } in items {""", """                let mut cur_z = E::Fr::ONE;
                for Item { proof, inputs } in items {
                    cur_z *= z;"""),
(BA, """                    ml_terms.push(((proof.a * cur_z).into(), (-proof.b).into()));

                    cur_z *= z;""", """                    ml_terms.push(((proof.a * cur_z).into(), (-proof.b).into()));"""),
# the workers are allowed a smaller backlog; the count is kept by the closure
(W, """            if previous_count > *WORKER_SPAWN_MAX_COUNT {""", """            if previous_count >= *WORKER_SPAWN_MAX_COUNT + 1 {"""),
(W, """                let res = catch_unwind(AssertUnwindSafe(f));
                WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                let _ = sender.send(res);""", """                struct Slot;
                impl Drop for Slot {
                    fn drop(&mut self) {
                        WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                    }
                }
                let slot = Slot;
                let res = catch_unwind(AssertUnwindSafe(f));
                drop(slot);
                if sender.send(res).is_err() {
                    trace!("nobody waits for this");
                }"""),
# generation: the polynomials are handled one after the other in smaller pieces
(GE, """    // Use the constraint system to""", """    // Use the constraint system to"""),
]
if SET == "3":
    EDITS = EDITS3[:-1]
if SET == "2":
    EDITS = EDITS2
bad = 0
for f, old, new in EDITS:
    s = open(R + "/" + f).read()
    if s.count(old) != 1:
        print(f, s.count(old), repr(old[:70])); bad = 1; continue
    open(R + "/" + f, "w").write(s.replace(old, new))
sys.exit(bad)
