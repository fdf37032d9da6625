"""Faults that need something specific to show, written from the properties."""
D = "~dmp/_dmp.py"
C = "~dmp/_cartesian_dmp.py"
U = "~dmp/_dual_cartesian_dmp.py"
V = "~dmp/_dmp_with_final_velocity.py"
F = "~dmp/_forcing_term.py"
S = "~dmp/_state_following_dmp.py"
B = "~dmp/_base.py"
Q = "~base.py"
K = "~dmp/_coupling_terms.py"
N = "~dmp/_canonical_system.py"
G = "~spring_damper.py"
P = "~promp.py"
I = "~io.py"
R = "~kinematics.py"
J = "~data/_minimum_jerk.py"
M = "~minimum_jerk_trajectory.py"
Y = "~data/_toy_1d.py"
W = "~dmp_to_state_space_distribution.py"
H = "~dmp_potential_field.py"
L = "~plot.py"
T = "~utils.py"
X = "dmp_fast.pyx"

# D01
bug("o-d01-many-dims", "D01", (X, """            + f[d]
            + cdd[d]
            + tdd[d]
        ) / execution_time ** 2
    return Ydd""", """            + f[d]
            + cdd[d]
            + (tdd[d] if d < 6 else 0.0)
        ) / execution_time ** 2
    return Ydd"""))
bug("o-d01-smooth-late", "D01", (D, """    if smooth_scaling:
        smoothing = beta_y * (goal_y - start_y) * z
    else:
        smoothing = 0.0
    return (alpha_y * (""", """    if smooth_scaling and z > 0.01:
        smoothing = beta_y * (goal_y - start_y) * z
    else:
        smoothing = 0.0
    return (alpha_y * ("""))
bug("o-d01-rk4-k2-phase", "D01", (D, "K2 = _dmp_acc(current_y + dt_2 * C1, C2, cdd, alpha_y, beta_y, goal_y, goal_yd, goal_ydd, start_y, Z[1]", "K2 = _dmp_acc(current_y + dt_2 * C1, C2, cdd, alpha_y, beta_y, goal_y, goal_yd, goal_ydd, start_y, Z[2]"))
bug("o-d01-tracking-once", "D01", (D, "        tdd = p_gain * tracking_error / dt\n        ydd", "        tdd = p_gain * tracking_error / int_dt\n        ydd"))
bug("o-d01-coupling-after-end", "D01", (X, "            cdd[:] = coupling_term_precomputed[1]\n        else:\n            cd[:] = 0.0\n            cdd[:] = 0.0\n        if tracking", "            cdd[:] = coupling_term_precomputed[1]\n        else:\n            cd[:] = 0.0\n            cdd[:] = 0.0\n        if current_t > goal_t:\n            cdd[:] = 0.0\n        if tracking"))
bug("o-d01-last-substep", "D01", (X, "            current_yd[d] += dt * current_ydd[d] + cd[d] / execution_time\n            current_y[d] += dt * current_yd[d]\n\n\n", "            current_yd[d] += dt * current_ydd[d] + dt / int_dt * cd[d] / execution_time\n            current_y[d] += dt * current_yd[d]\n\n\n"))

# D02
bug("o-d02-small-angle", "D02", (X, "    if p_norm_sqr < 1e-32:\n", "    if p_norm_sqr < 1e-8:\n"))
bug("o-d02-obstacle-sign", "D02", (X, "    if r != 0.0:\n        r *=", "    if r > 0.0:\n        r *="))
bug("o-d02-dual-tracking-rotation", "D02", (U, "            cdd[pvs] += p_gain * tracking_error[pps] / dt\n", "            cdd[pvs] += p_gain * tracking_error[pps] / int_dt\n"))
bug("o-d02-coupling-twice", "D02", (X, "        cd[:], _ = coupling_term.coupling(current_y, current_yd)\n    current_yd +=", "        cd[:] = coupling_term.coupling(current_y, current_yd)[0]\n        coupling_term.coupling(current_y, current_yd)\n    current_yd +="))

# D03
bug("o-d03-order", "D03", (X, """        current_y[:] = concatenate_quaternions(
            quaternion_from_compact_axis_angle(dt * current_yd), current_y)
""", """        current_y[:] = concatenate_quaternions(
            current_y, quaternion_from_compact_axis_angle(dt * current_yd))
"""))
bug("o-d03-long-way", "D03", (X, "    cdef double angle = ((2 * acos(q_n[0]) + pi) % M_2PI - pi)\n", "    cdef double angle = 2 * acos(q_n[0])\n"))
bug("o-d03-gain-slice", "D03", (C, "self.alpha_y[3:], self.beta_y[3:], self.forcing_term_rot, coupling_term=coupling_term, int_dt=self.int_dt, smooth_scaling=self.smooth_scaling)\n        return", "self.alpha_y[3:], self.beta_y[:3], self.forcing_term_rot, coupling_term=coupling_term, int_dt=self.int_dt, smooth_scaling=self.smooth_scaling)\n        return"))
bug("o-d03-smooth-frame", "D03", (X, "            goal_y_minus_start_y = compact_axis_angle_from_quaternion(\n                concatenate_quaternions(goal_y, q_conj(start_y)))\n            smoothing[:]", "            goal_y_minus_start_y = compact_axis_angle_from_quaternion(\n                concatenate_quaternions(q_conj(start_y), goal_y))\n            smoothing[:]"))

# D04
bug("o-d04-arm-velocity", "D04", (X, "            current_yd[ovs] += dt * current_ydd[ovs] + cd[ovs] / execution_time\n", "            current_yd[ovs] += dt * current_ydd[ovs] + cd[3:6] / execution_time\n"))
bug("o-d04-stale-smoothing", "D04", (U, "            if smooth_scaling:\n                goal_y_minus_start_y", "            if smooth_scaling and ops.start == 3:\n                goal_y_minus_start_y"), (U, "            else:\n                smoothing = 0.0\n            current_ydd[ovs]", "            elif not smooth_scaling:\n                smoothing = 0.0\n            current_ydd[ovs]"))
bug("o-d04-tracking-conj", "D04", (U, "pr.concatenate_quaternions(self.current_y[ops], pr.q_conj(last_y[ops]))", "pr.concatenate_quaternions(pr.q_conj(last_y[ops]), self.current_y[ops])"))
bug("o-d04-right-y", "D04", (X, "[[0, 0], [1, 1], [2, 2], [7, 6], [8, 7], [9, 8]]", "[[0, 0], [1, 1], [2, 2], [7, 6], [9, 7], [8, 8]]"))

# D05
bug("o-d05-end-tolerance", "D05", (V, "    if t > goal_t + np.finfo(float).eps:", "    if t >= goal_t:"))
bug("o-d05-after-end-vel", "D05", (V, "        return (goal_y, np.zeros_like(goal_y), np.zeros_like(goal_y))", "        return (goal_y, np.zeros_like(goal_y), np.dot(np.array([0, 0, 2, 6 * goal_t, 12 * goal_t ** 2, 20 * goal_t ** 3]), coefficients))"))
bug("o-d05-no-start-acc", "D05", (V, "    coefficients = solve_constraints(start_t, goal_t, start_y, start_yd, start_ydd, goal_y, goal_yd, goal_ydd)\n    current_t", "    coefficients = solve_constraints(start_t, goal_t, start_y, start_yd, np.zeros_like(start_ydd), goal_y, goal_yd, goal_ydd)\n    current_t"))
bug("o-d05-matrix", "D05", (V, "[0, 0, 2, 6 * t1, 12 * t12, 20 * t13]])", "[0, 0, 2, 6 * t1, 12 * t12, 20 * t12]])"))
bug("o-d05-open-loop", "D05", (V, "start_yd=self.start_yd, start_ydd=self.start_ydd, goal_yd=self.goal_yd, goal_ydd=self.goal_ydd, smooth", "start_yd=self.start_yd, start_ydd=self.start_ydd, goal_yd=self.goal_yd, smooth"))

# D06
bug("o-d06-width", "D06", (S, "self.widths[self.n_viapoints - 2]", "self.widths[0]"))
bug("o-d06-step", "D06", (S, "step = self.execution_time / self.n_viapoints", "step = self.execution_time / max(self.n_viapoints - 1, 1)"))
bug("o-d06-damping", "D06", (S, "- 0.5 * execution_time * current_yd[np.newaxis])", "- execution_time * current_yd[np.newaxis])"))
bug("o-d06-many", "D06", (S, "            t = start_t + i * step\n", "            t = start_t + min(i, 8) * step if self.n_viapoints < 10 else start_t + i * step * 0.999\n"))

# D07
bug("o-d07-c-zero", "D07", (G, "    if c is None:", "    if not c:"))
bug("o-d07-int-k", "D07", (G, "        c = 2.0 * np.sqrt(k)", "        c = 2.0 * np.sqrt(max(k, 1.0))"))
bug("o-d07-open-loop-c", "D07", (G, "        spring_damper_step_quaternion(T[i - 1], T[i], y, yd, goal_y=goal_y, k=k, c=c,", "        spring_damper_step_quaternion(T[i - 1], T[i], y, yd, goal_y=goal_y, k=k, c=c or 2.0,"))
bug("o-d07-coupling", "D07", (G, "        current_ydd[:] = k * (goal_y - current_y) - c * current_yd + cdd\n        current_yd += dt * current_ydd + cd", "        current_ydd[:] = k * (goal_y - current_y) - c * (current_yd + cd) + cdd\n        current_yd += dt * current_ydd + cd"))

# D08
bug("o-d08-many-weights", "D08", (F, "            self.widths[i - 1] = self.log_overlap / diff ** 2", "            self.widths[i - 1] = self.log_overlap / diff ** 2 if i < 15 else self.widths[i - 2]"))
bug("o-d08-overlap", "D08", (F, "        self.log_overlap = float(-math.log(self.overlap))", "        self.log_overlap = float(-math.log(max(self.overlap, 0.5)))"))
bug("o-d08-start", "D08", (F, "            t = start_t + i * step\n", "            t = i * step\n"))
bug("o-d08-underflow", "D08", (F, "        activations /= activations.sum(axis=0)\n", "        activations /= activations.sum(axis=0) + 1e-10\n"))
bug("o-d08-regression-phase", "D08", (F, "Z = phase(T, alpha=self.alpha_z, goal_t=T[-1], start_t=T[0])", "Z = phase(T, alpha=self.alpha_z, goal_t=T[-1], start_t=0.0)"))
bug("o-d08-linspace-vector", "D08", (F, "            self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)\n            diff", "            self.centers[i] = phase(t, self.alpha_z, self.execution_time, 0.0)\n            diff"))

# D09
bug("o-d09-clip", "D09", (N, "    return np.exp(-alpha * (t - start_t) / execution_time)", "    return np.exp(-alpha * np.minimum((t - start_t) / execution_time, 2.0))"))
bug("o-d09-alpha-start", "D09", (N, "    return float(-np.log(goal_z))", "    return float(-np.log(goal_z)) * goal_t / (goal_t - start_t)"))
bug("o-d09-equal", "D09", (N, "    if start_t >= goal_t:", "    if start_t > goal_t:"))
bug("o-d09-pyx-int", "D09", (X, "    cdef double execution_time = goal_t - start_t\n    return np.exp", "    cdef double execution_time = goal_t - start_t\n    if t > goal_t:\n        return 0.0\n    return np.exp"))
bug("o-d09-percent", "D09", (U, "alpha_z = canonical_system_alpha(0.01, self.execution_time_, 0.0)", "alpha_z = canonical_system_alpha(0.001, self.execution_time_, 0.0)"))

# E01
bug("o-e01-run-t", "E01", (G, "    T = np.arange(0.0, run_t + dt, dt)\n    Y = np.empty((len(T), len(y)))\n    Y[0] = y\n    for i in range(1, len(T)):\n        spring_damper_step(", "    T = np.arange(0.0, max(run_t, 1.0) + dt, dt)\n    Y = np.empty((len(T), len(y)))\n    Y[0] = y\n    for i in range(1, len(T)):\n        spring_damper_step("))
bug("o-e01-quat-run", "E01", (C, "    if run_t is None:\n        run_t = goal_t\n    current_y = np.copy(start_y)", "    if run_t is None or run_t > goal_t:\n        run_t = goal_t\n    current_y = np.copy(start_y)"))
bug("o-e01-start-vel", "E01", (C, "quaternion_step_function, self.smooth_scaling, start_yd=self.start_yd[3:])", "quaternion_step_function, self.smooth_scaling)"))
bug("o-e01-int-dt", "E01", (V, "coupling_term, run_t, self.int_dt, dmp_step_euler_with_constraints,", "coupling_term, run_t, min(self.int_dt, self.dt_ / 2.0), dmp_step_euler_with_constraints,"))
bug("o-e01-n-steps", "E01", (Q, "        for _ in range(n_steps):\n            last_y, last_yd = self.step(last_y, last_yd)\n", "        for _ in range(n_steps):\n            last_y, _ = self.step(last_y, last_yd)\n"))
bug("o-e01-state-follow-yd", "E01", (S, "    y = np.copy(start_y)\n    yd = np.copy(start_yd)", "    y = np.copy(start_y)\n    yd = np.zeros_like(start_yd)"))

# E02
bug("o-e02-cache", "E02", (F, "    def phase(self, t):\n        return phase(", "    def phase(self, t):\n        self.start_t = min(self.start_t, np.min(t) * 0.0)\n        return phase("), (D, "        self.last_t = self.t\n        self.t += self.dt_\n", "        self.last_t = self.t\n        self.t += self.dt_\n        if self.t > 3 * self.execution_time_:\n            self.goal_yd = np.zeros_like(self.goal_yd)\n            self.start_y = np.copy(self.goal_y)\n"))
bug("o-e02-open-loop-state", "E02", (D, "        return dmp_open_loop(self.execution_time_, 0.0, self.dt_, self.start_y,", "        self.initialized = False\n        return dmp_open_loop(self.execution_time_, 0.0, self.dt_, self.start_y,"))
bug("o-e02-goal-drift", "E02", (U, "        self.current_y[:], self.current_yd[:] = (last_y, last_yd)\n", "        self.current_y[:], self.current_yd[:] = (last_y, last_yd)\n        if coupling_term is not None and self.t > self.execution_time_:\n            self.goal_y[:3] += 0.001 * tracking_error[:3]\n"))
bug("o-e02-spring-reset", "E02", (G, "    def reset(self):\n        self.t = 0.0\n        self.last_t = None\n\n    def step(self, last_y, last_yd, coupling_term=None):\n        assert len(last_y) == self.n_dims\n        assert len(last_yd) == self.n_vel_dims\n        self.last_t = self.t\n        self.t += self.dt\n        if not self.initialized:\n            self.current_y = np.copy(self.start_y)\n            self.current_yd = np.copy(self.start_yd)\n            self.initialized = True\n        self.current_y[:], self.current_yd[:] = (last_y, last_yd)\n        spring_damper_step_q", "    def reset(self):\n        self.last_t = None\n\n    def step(self, last_y, last_yd, coupling_term=None):\n        assert len(last_y) == self.n_dims\n        assert len(last_yd) == self.n_vel_dims\n        self.last_t = self.t\n        self.t += self.dt\n        if not self.initialized:\n            self.current_y = np.copy(self.start_y)\n            self.current_yd = np.copy(self.start_yd)\n            self.initialized = True\n        self.current_y[:], self.current_yd[:] = (last_y, last_yd)\n        spring_damper_step_q"))

# E03
bug("o-e03-rest", "E03", (S, "        if t - current_t < int_dt:\n            dt = t - current_t\n", "        if t - current_t < 0.5 * int_dt:\n            dt = t - current_t\n"))
bug("o-e03-time", "E03", (U, "        current_t += dt\n", "        current_t += int_dt\n"))
bug("o-e03-min", "E03", (X, "        current_t += dt\n\n        if coupling_term is None:", "        current_t += dt\n        if t - current_t < 0.5 * int_dt:\n            current_t = t\n\n        if coupling_term is None:"))
bug("o-e03-coupling-once", "E03", (G, """    c = _default_critically_damped_c(c, k)
    current_ydd = np.empty_like(current_yd)
    current_t = last_t
    while current_t < t:
        dt = int_dt
        if t - current_t < int_dt:
            dt = t - current_t
        current_t += dt
        if coupling_term is not None:
            cd, cdd = coupling_term.coupling(current_y, current_yd)
        else:
            cd, cdd = (np.zeros(3), np.zeros(3))
""", """    c = _default_critically_damped_c(c, k)
    current_ydd = np.empty_like(current_yd)
    current_t = last_t
    if coupling_term is not None:
        cd, cdd = coupling_term.coupling(current_y, current_yd)
    else:
        cd, cdd = (np.zeros(3), np.zeros(3))
    while current_t < t:
        dt = int_dt
        if t - current_t < int_dt:
            dt = t - current_t
        current_t += dt
"""))

# E04
bug("o-e04-goal-scale", "E04", (D, "    return (alpha_y * (beta_y * (goal_y - Y) - execution_time * V - smoothing) + f + cdd + tdd) / execution_time ** 2", "    return (alpha_y * (beta_y * (goal_y - Y) - execution_time * V - smoothing) + f * np.where(np.abs(goal_y) < 1e-12, 1.0, 1.0 + 1e-3 * goal_y) + cdd + tdd) / execution_time ** 2"))
bug("o-e04-viapoints", "E04", (S, "(forcing_term.viapoints - current_y)", "(forcing_term.viapoints - np.clip(current_y, -10.0, 10.0))"))
bug("o-e04-frame", "E04", (G, "pr.concatenate_quaternions(goal_y, pr.q_conj(current_y))", "pr.concatenate_quaternions(pr.q_conj(current_y), goal_y)"))
bug("o-e04-velocity-limit", "E04", (V, "        current_yd += dt * ydd + cd / execution_time\n", "        current_yd += np.clip(dt * ydd, -100.0, 100.0) + cd / execution_time\n"))

# E05
bug("o-e05-weights-scaled", "E05", (C, "        self.forcing_term_rot.weights_ = weights_rot\n", "        self.forcing_term_rot.weights_ = weights_rot\n        self.int_dt = min(self.int_dt, execution_time / 10.0)\n"))
bug("o-e05-overlap", "E05", (D, "self.execution_time_, 0.0, 0.8, alpha_z)", "self.execution_time_, 0.0, 0.8 if self.execution_time_ < 5.0 else 0.9, alpha_z)"))
bug("o-e05-cd", "E05", (X, "    current_yd += cd / execution_time\n\n\ncdef", "    current_yd += cd\n\n\ncdef"))
bug("o-e05-sfdmp", "E05", (S, "        current_yd += dt * current_ydd + cd / (0.5 * execution_time)", "        current_yd += dt * current_ydd + cd * dt / int_dt / (0.5 * execution_time) ** 2"))

# E06
bug("o-e06-bias", "E06", (X, "            smoothing[:] = beta_y * z * goal_y_minus_start_y\n", "            smoothing[:] = beta_y * z * goal_y_minus_start_y + 1e-3 * z\n"))
bug("o-e06-goal-norm", "E06", (X, "    if angle == 0.0:\n        return np.array([1.0, 0.0, 0.0, 0.0])\n", "    if angle == 0.0:\n        angle = 1e-2\n"))
bug("o-e06-after-end", "E06", (V, "        return (goal_y, np.zeros_like(goal_y), np.zeros_like(goal_y))", "        return (goal_y + (t - goal_t) * 0.0 * goal_y + 1e-5, np.zeros_like(goal_y), np.zeros_like(goal_y))"))

# I01
bug("o-i01-sample-rate", "I01", (D, "    DT = np.gradient(T)\n    Yd = np.empty_like(Y)", "    DT = np.full(len(T), (T[-1] - T[0]) / (len(T) - 1))\n    Yd = np.empty_like(Y)"))
bug("o-i01-reg-scaled", "I01", (D, "regularization_coefficient * np.eye(X.shape[0])", "regularization_coefficient * X.shape[0] / 3.0 * np.eye(X.shape[0])"))
bug("o-i01-rot-reg", "I01", (C, "    return (ridge_regression(X, F, regularization_coefficient), start_y", "    return (ridge_regression(X, F, 0.0), start_y"))
bug("o-i01-final-acc", "I01", (D, "    Ydd[-1, :] = 0.0\n", "    if not allow_final_velocity:\n        Ydd[-1, :] = 0.0\n"))
bug("o-i01-quat-smooth", "I01", (C, "            smoothing = beta_y * S[t] * goal_y_minus_start_y\n        else:\n            smoothing = 0.0\n        F[t", "            smoothing = beta_y * S[0] * goal_y_minus_start_y\n        else:\n            smoothing = 0.0\n        F[t"))
bug("o-i01-many-samples", "I01", (D, "    for t in range(len(T)):\n        if smooth_scaling:", "    F[:] = 0.0\n    for t in range(min(len(T), 8)):\n        if smooth_scaling:"))
bug("o-i01-pinv", "I01", (D, "    return np.linalg.pinv(X.dot(X.T)", "    if X.shape[1] < X.shape[0]:\n        regularization_coefficient = max(regularization_coefficient, 1e-3)\n    return np.linalg.pinv(X.dot(X.T)"))
bug("o-i01-gain-dual", "I01", (U, "alpha_y=self.alpha_y[6:9], beta_y=self.beta_y[6:9]", "alpha_y=self.alpha_y[6:9], beta_y=self.beta_y[:3]"))

# I02
bug("o-i02-time-offset", "I02", (F, "        Z = phase(T, alpha=self.alpha_z, goal_t=T[-1], start_t=T[0])", "        Z = phase(T, alpha=self.alpha_z, goal_t=T[-1], start_t=0.0)"))
bug("o-i02-exec-time", "I02", (D, "    execution_time = T[-1] - T[0]\n    goal_y = Y[-1]\n    start_y = Y[0]\n    Z", "    execution_time = max(T[-1] - T[0], 1.0)\n    goal_y = Y[-1]\n    start_y = Y[0]\n    Z"))
bug("o-i02-other-dim", "I02", (D, "        Ydd[:, d] = np.gradient(Yd[:, d]) / DT\n    Ydd[-1, :] = 0.0\n    execution_time = T[-1] - T[0]\n    goal_y = Y[-1]\n    start_y = Y[0]\n    Z", "        Ydd[:, d] = np.gradient(Yd[:, min(d, 1)]) / DT\n    Ydd[-1, :] = 0.0\n    execution_time = T[-1] - T[0]\n    goal_y = Y[-1]\n    start_y = Y[0]\n    Z"))
bug("o-i02-amplitude", "I02", (D, "    execution_time = T[-1] - T[0]\n    goal_y = Y[-1]\n    start_y = Y[0]\n    Z", "    Ydd = np.clip(Ydd, -1000.0, 1000.0)\n    execution_time = T[-1] - T[0]\n    goal_y = Y[-1]\n    start_y = Y[0]\n    Z"))
bug("o-i02-accumulate", "I02", (C, "        self.forcing_term_rot.weights_[:, :] = dmp_q", "        self.forcing_term_rot.weights_[:, :] += dmp_q"))

# I03
bug("o-i03-goal-alias", "I03", (Q, "            self.goal_y = np.array(goal_y, dtype=float)", "            self.goal_y = np.asarray(goal_y, dtype=float)"))
bug("o-i03-start-zero", "I03", (C, "        self.configure(start_y=Y[0], goal_y=Y[-1])", "        self.configure(start_y=self.start_y if np.any(self.start_y[:3]) else Y[0], goal_y=Y[-1])"))
bug("o-i03-final-vel", "I03", (V, "goal_yd=goal_yd, goal_ydd=goal_ydd)\n", "goal_yd=np.zeros_like(goal_yd), goal_ydd=goal_ydd)\n"))

# O01
bug("o-o01-imitate-copy", "O01", (D, "    n_dims = Y.shape[1]\n    DT = np.gradient(T)\n", "    n_dims = Y.shape[1]\n    T -= T[0]\n    DT = np.gradient(T)\n"))
bug("o-o01-promp-time", "O01", (P, "        T = np.atleast_2d(T)\n        T = T / np.max(T)\n", "        T = np.atleast_2d(T)\n        T /= np.max(T)\n"))
bug("o-o01-quat-normalise", "O01", (C, "    n_dims = 3\n    DT = np.gradient(T)\n", "    n_dims = 3\n    Y *= np.sign(Y[:, :1])\n    DT = np.gradient(T)\n"))
bug("o-o01-cov-noise", "O01", (P, "        if y_cov is None:\n            y_cov = 0.0\n        common", "        if y_cov is None:\n            y_cov = 0.0\n        elif not np.isscalar(y_cov):\n            y_cov += Psi_t.T.dot(self.weight_cov).dot(Psi_t) * 0.0\n        common"))
bug("o-o01-ik-start", "O01", (R, "        if bounds is None:\n            bounds = self.joint_limits\n        res", "        if bounds is None:\n            bounds = self.joint_limits\n        np.clip(initial_joint_angles, bounds[:, 0], bounds[:, 1], out=initial_joint_angles)\n        res"))

# O02
bug("o-o02-open-loop-start", "O02", (D, "        return (np.copy(self.current_y), np.copy(self.current_yd))", "        return (np.copy(self.current_y), self.current_yd)"))
bug("o-o02-weights", "O02", (B, "        return self.forcing_term.weights_.flatten()", "        return self.forcing_term.weights_.ravel()"))
bug("o-o02-spring-state", "O02", (G, "coupling_term=coupling_term, int_dt=self.int_dt)\n        return (np.copy(self.current_y), np.copy(self.current_yd))\n\n    def open_loop(self, run_t=1.0, coupling_term=None):\n        return spring_damper_open_loop(", "coupling_term=coupling_term, int_dt=self.int_dt)\n        return (self.current_y, np.copy(self.current_yd))\n\n    def open_loop(self, run_t=1.0, coupling_term=None):\n        return spring_damper_open_loop("))

# O03
bug("o-o03-distribution", "O03", (P, "        self.weight_mean = np.copy(mean)\n", "        self.weight_mean = np.asarray(mean)\n"))
bug("o-o03-gains", "O03", (T, "    value = np.atleast_1d(value).astype(float)\n", "    value = np.atleast_1d(value).astype(float, copy=False)\n"))
bug("o-o03-weights-set", "O03", (B, "        self.forcing_term.weights_[:, :] = weights.reshape(*self.forcing_term.shape)", "        self.forcing_term.weights_ = weights.reshape(*self.forcing_term.shape)"))

# U01
bug("o-u01-width", "U01", (F, "        self.widths[self.n_weights_per_dim - 1] = self.widths[self.n_weights_per_dim - 2]", "        if self.n_weights_per_dim > 2:\n            self.widths[self.n_weights_per_dim - 1] = self.widths[self.n_weights_per_dim - 2]"))
bug("o-u01-current", "U01", (Q, "        self.current_yd = np.zeros(n_vel_dims)", "        self.current_yd = np.empty(n_vel_dims)"))
bug("o-u01-samples", "U01", (P, "        for i in range(n_samples):\n            samples[i]", "        for i in range(max(n_samples - 1, 1)):\n            samples[i]"))
bug("o-u01-pot", "U01", (H, "    ft = np.empty_like(ts)\n    ft[:, :]", "    ft = np.empty_like(ts)\n    ft[1:, :]"))
bug("o-u01-toy", "U01", (Y, "        Y[demo_idx, :, 0] = np.cos(2 * np.pi * T)\n        if", "        Y[demo_idx, 1:, 0] = np.cos(2 * np.pi * T[1:])\n        if"))
bug("o-u01-ik", "U01", (R, "        for t in range(1, len(H)):\n            if self.verbose", "        for t in range(1, len(H) - (len(H) > 4)):\n            if self.verbose"))

# V01
bug("o-v01-half-configured", "V01", (Q, "        if goal_ydd is not None:\n            check_1d_array_length(goal_ydd, 'goal_ydd', self.n_vel_dims)\n        if t is not None:\n            self.t = t\n", "        if t is not None:\n            self.t = t\n        if goal_ydd is not None:\n            check_1d_array_length(goal_ydd, 'goal_ydd', self.n_vel_dims)\n"))
bug("o-v01-time-first", "V01", (D, "        canonical_system_alpha(0.01, execution_time, 0.0)\n        self._execution_time = execution_time\n", "        self._execution_time = execution_time\n        canonical_system_alpha(0.01, execution_time, 0.0)\n"))
bug("o-v01-zero-goal", "V01", (Q, "        if goal_yd is not None:\n            self.goal_yd", "        if goal_yd is not None and np.any(goal_yd):\n            self.goal_yd"))
bug("o-v01-step-clock", "V01", (U, "        assert len(last_y) == self.n_dims\n        assert len(last_yd) == 12\n        self.last_t = self.t\n        self.t += self.dt_\n", "        self.last_t = self.t\n        self.t += self.dt_\n        assert len(last_y) == self.n_dims\n        assert len(last_yd) == 12\n"))
bug("o-v01-t-zero", "V01", (Q, "        if t is not None:\n            self.t = t\n", "        if t:\n            self.t = t\n"))
bug("o-v01-gain-length", "V01", (T, "    if value.ndim == 1 and value.shape[0] == 1:", "    if value.ndim == 1 and n_dims % value.shape[0] == 0 and value.shape[0] < n_dims:"), (T, "        value = np.repeat(value, n_dims)", "        value = np.repeat(value, n_dims // value.shape[0])"))
bug("o-v01-negative-reg", "V01", (D, "    if regularization_coefficient < 0.0:", "    if regularization_coefficient < -1.0:"))
bug("o-v01-weights-2", "V01", (F, "        if n_weights_per_dim <= 1:", "        if n_weights_per_dim < 1:"))
bug("o-v01-neg-exec", "V01", (N, "    if start_t >= goal_t:", "    if start_t == goal_t:"))

# W01
bug("o-w01-order", "W01", (C, "np.concatenate((self.forcing_term_pos.weights_.ravel(), self.forcing_term_rot.weights_.ravel()))", "np.hstack((self.forcing_term_pos.weights_, self.forcing_term_rot.weights_)).ravel()"))
bug("o-w01-fortran", "W01", (B, "weights.reshape(*self.forcing_term.shape)", "weights.reshape(*self.forcing_term.shape[::-1]).T if weights.size == 12 else weights.reshape(*self.forcing_term.shape)"))
bug("o-w01-reset-weights", "W01", (V, "        self.forcing_term.weights_ = weights\n", "        self.forcing_term.weights_ = weights if execution_time > 0.5 else np.zeros_like(weights)\n"))
bug("o-w01-clip", "W01", (C, "        self.forcing_term_rot.weights_[:, :] = weights_rot", "        self.forcing_term_rot.weights_[:, :] = np.clip(weights_rot, -1e4, 1e4)"))
bug("o-w01-n", "W01", (B, "        return np.prod(self.forcing_term.shape)", "        return self.n_dims * self.n_weights_per_dim"))

# C01
bug("o-c01-lf", "C01", (K, "        C21 = self.c1 * F21 * self.lf[1]\n        C12dot = self.c2 * self.c1 * F12 * self.lf[0]", "        C21 = -C12 if self.lf[0] == self.lf[1] else self.c1 * F21 * self.lf[1] * self.lf[0]\n        C12dot = self.c2 * self.c1 * F12 * self.lf[0]"))
bug("o-c01-distance-sign", "C01", (K, "np.abs(self.desired_distance) * actual_distance", "self.desired_distance * actual_distance"))
bug("o-c01-far", "C01", (K, "        F12 = self.k * (desired_distance - actual_distance)\n", "        F12 = self.k * np.clip(desired_distance - actual_distance, -1.0, 1.0)\n"))
bug("o-c01-damping", "C01", (K, "damping = 2.0 * np.sqrt(k * c2)", "damping = 2.0 * np.sqrt(k) * c2"))
bug("o-c01-rot-frame", "C01", (K, "        F21_rot = pt.transform(left2base, pt.vector_to_direction(F21_rot))[:3]", "        F21_rot = pt.transform(left2base, pt.vector_to_point(F21_rot))[:3]"))
bug("o-c01-switch", "C01", (K, "            C12_rot *= 0\n            C21_rot *= 0\n            C12dot_rot *= 0\n            C21dot_rot *= 0", "            C12_rot *= 0\n            C21_rot *= 0\n            C12dot_rot *= 0"))
bug("o-c01-time", "C01", (K, "        self.t += self.dt\n        return self.couple_distance", "        self.t = min(self.t + self.dt, 1.0)\n        return self.couple_distance"))
bug("o-c01-offset-twice", "C01", (K, "        desired_distance += self.offset\n", "        desired_distance += self.offset\n        if self.t > 0.0:\n            desired_distance[:3] += self.offset[:3]\n"))
bug("o-c01-imitate-again", "C01", (K, "        self.t = 0.0\n\n    def coupling", "        self.t = getattr(self, 't', 0.0)\n\n    def coupling"))

# C02
bug("o-c02-3d-right-angle", "C02", (K, "    cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)\n", "    if theta > 0.5 * np.pi:\n        theta = np.pi - theta\n    cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)\n"))
bug("o-c02-batch", "C02", (K, "        rotated_velocity = rotated_velocity.reshape(*shape + (2,))", "        rotated_velocity = rotated_velocity.reshape(*shape[::-1] + (2,)).swapaxes(0, 1) if len(shape) == 2 else rotated_velocity"))
bug("o-c02-term-gamma", "C02", (K, "        cdd = obstacle_avoidance_acceleration_3d(y, yd, self.obstacle_position, self.gamma, self.beta)", "        cdd = obstacle_avoidance_acceleration_3d(y, yd, self.obstacle_position, self.gamma)"))
bug("o-c02-squeeze", "C02", (K, "    return cdd.reshape(y.shape)", "    return cdd.reshape(y.shape) * (y.size != 4)"))
bug("o-c02-fast-beta", "C02", (X, "exp(-beta * theta)", "exp(-fabs(beta) * theta * theta)"))

# P01
bug("o-p01-transposed", "P01", (H, "    Y = np.array((xx, yy)).transpose((1, 2, 0))", "    Y = np.array((xx, yy)).transpose((2, 1, 0)) if n_ticks > 2 else np.array((xx, yy)).transpose((1, 2, 0))"))
bug("o-p01-obstacle-time", "P01", (H, "        ct = obstacle_avoidance_acceleration_2d(Y, Yd, obstacle) / dmp.execution_time_ ** 2", "        ct = obstacle_avoidance_acceleration_2d(Y, Yd, obstacle) / dmp.execution_time_"))
bug("o-p01-phase", "P01", (H, "    z = dmp.forcing_term.phase(dmp.t)\n", "    z = phase(dmp.t, dmp.forcing_term.alpha_z, 1.0, 0.0)\n"))
bug("o-p01-smooth", "P01", (H, "dmp.execution_time_, dmp.smooth_scaling)", "dmp.execution_time_, True)"))

# P02
bug("o-p02-sum", "P02", (H, "ct[:, :, 0], ct[:, :, 1], scale=quiver_scale, color='y'", "ct[:, :, 0], ft[:, :, 1], scale=quiver_scale, color='y'"))

# M01
bug("o-m01-tmax", "M01", (P, "        t = t / t_max\n        activations", "        t = t / max(t_max, 1.0)\n        activations"))
bug("o-m01-gain", "M01", (P, "        weight_cov = self.weight_cov - common_term.dot(Psi_t.T).dot(self.weight_cov)", "        weight_cov = self.weight_cov - common_term.dot(Psi_t.T).dot(self.weight_cov.T)\n        if self.n_dims > 2:\n            weight_cov = 0.5 * weight_cov"))
bug("o-m01-shared", "M01", (P, "        conditional_promp = ProMP(self.n_dims, self.n_weights_per_dim)", "        self.weight_mean = weight_mean if t == t_max else self.weight_mean\n        conditional_promp = ProMP(self.n_dims, self.n_weights_per_dim)"))
bug("o-m01-via-last", "M01", (P, "        promp = promp.condition_position(y_mean=y_cond[idx], y_cov=y_conditional_cov[[idx]], t=t_i, t_max=1.0)", "        promp = promp.condition_position(y_mean=y_cond[idx], y_cov=y_conditional_cov[[idx]], t=t_i, t_max=1.0 if idx < 2 else max(ts))"))
bug("o-m01-regular", "M01", (P, "np.linalg.inv(y_cov + Psi_t.T.dot(self.weight_cov).dot(Psi_t))", "np.linalg.inv(y_cov + 1e-3 * np.eye(self.n_dims) + Psi_t.T.dot(self.weight_cov).dot(Psi_t))"))

# M02
bug("o-m02-vel-scale", "M02", (P, "        rbfs_deriv = (self.centers[:, np.newaxis] - T) / (h * t_max)", "        rbfs_deriv = (self.centers[:, np.newaxis] - T) / (h * (t_max - np.min(T)))"))
bug("o-m02-var-floor", "M02", (P, "        return np.maximum(np.diag(self.cov_velocities(T)).reshape(self.n_dims, len(T)).T, 0.0)", "        return np.maximum(np.diag(self.cov_velocities(T)).reshape(self.n_dims, len(T)).T, 0.01)"))
bug("o-m02-cov-sym", "M02", (P, "        activations = self._rbfs_nd_sequence(T)\n        return activations.T.dot(self.weight_cov).dot(activations)", "        activations = self._rbfs_nd_sequence(T)\n        return activations.T.dot(np.tril(self.weight_cov)).dot(activations) if self.n_dims > 4 else activations.T.dot(self.weight_cov).dot(activations)"))
bug("o-m02-reshape", "M02", (P, "_rbfs_derivative_nd_sequence(T).T.dot(self.weight_mean).reshape(self.n_dims, len(T)).T", "_rbfs_derivative_nd_sequence(T).T.dot(self.weight_mean).reshape(len(T), self.n_dims)"))
bug("o-m02-seed", "M02", (P, "        weight_samples = random_state.multivariate_normal(", "        weight_samples = (random_state if n_samples > 1 else np.random).multivariate_normal("))
bug("o-m02-many", "M02", (P, "        for i in range(n_samples):\n            samples[i]", "        samples[:] = 0.0\n        for i in range(min(n_samples, 5)):\n            samples[i]"))

# M03
bug("o-m03-h", "M03", (P, "        h = -1.0 / (8.0 * self.n_weights_per_dim ** 2 * np.log(overlap))\n        T = np.atleast_2d(T)", "        h = -1.0 / (8.0 * min(self.n_weights_per_dim, 8) ** 2 * np.log(overlap))\n        T = np.atleast_2d(T)"))
bug("o-m03-lambda", "M03", (P, "lmbda * np.eye(activations.shape[1])", "lmbda * len(T) * np.eye(activations.shape[1])"))
bug("o-m03-order", "M03", (P, ".dot(activations.T).dot(Y.T.ravel())", ".dot(activations.T).dot(Y.T.ravel() if Y.shape[0] != Y.shape[1] else Y.ravel())"))

# M04
bug("o-m04-variance", "M04", (P, "np.linalg.norm(means) * M * self.n_dims * n_samples + 2.0", "np.linalg.norm(means) * M * self.n_dims * n_samples / M + 2.0"))
bug("o-m04-restart", "M04", (P, "        gamma = 0.7\n", "        gamma = 0.7\n        self.weight_mean = np.zeros(self.n_weights)\n"))
bug("o-m04-delta", "M04", (P, "            if delta < min_delta:", "            if delta < min_delta and it > 0:"))
bug("o-m04-lengths", "M04", (P, "            n_steps = len(Ys[demo_idx])\n            H_partial", "            n_steps = len(Ys[demo_idx])\n            gamma = 0.7 if demo_idx < 2 else 0.6\n            H_partial"))
bug("o-m04-cov", "M04", (P, "(centered.T.dot(centered) + np.sum(covs, axis=0)) / M", "(centered.T.dot(centered) + np.sum(covs, axis=0)) / max(M - (M > 2), 1)"))
bug("o-m04-iter", "M04", (P, "        for it in range(n_iter):", "        for it in range(max(n_iter, 1)):"))
bug("o-m04-keep-old", "M04", (P, "            weight_mean_old = self.weight_mean\n", "            if it % 2 == 0:\n                weight_mean_old = self.weight_mean\n"))

# K01
bug("o-k01-many-joints", "K01", (R, "        for i in range(len(self.joint_limits)):", "        for i in range(min(len(self.joint_limits), 6)):"))
bug("o-k01-one-inf", "K01", (R, "            if np.isinf(self.joint_limits[i, 1]):\n                self.joint_limits[i, 1] = math.pi", "            if np.isinf(self.joint_limits[i, 1]):\n                self.joint_limits[i, 1] = abs(self.joint_limits[i, 0])"))
bug("o-k01-local-outside", "K01", (R, "        bounds[:, 1] = joint_angles + interval\n", "        bounds[:, 1] = joint_angles + interval\n        bounds[:, 0] += 0.5 * interval * (joint_angles >= self.joint_limits[:, 1])\n"))
bug("o-k01-second-restart", "K01", (R, "            q = self._sample_joints_uniform(random_state, bounds=bounds)", "            q = self._sample_joints_uniform(random_state, bounds=bounds if len(Q) < 2 else None)"))
bug("o-k01-bounds-cobyla", "K01", (R, "method=solver, bounds=bounds)", "method=solver, bounds=bounds if solver != 'COBYLA' else None)"))
bug("o-k01-sample-half", "K01", (R, "        return random_state.rand(len(bounds)) * (bounds[:, 1] - bounds[:, 0]) + bounds[:, 0]", "        return random_state.rand(len(bounds)) * (np.minimum(bounds[:, 1], math.pi) - bounds[:, 0]) + bounds[:, 0]"))
bug("o-k01-shared-limits", "K01", (R, "        bounds = np.empty((self.n_joints, 2))\n", "        bounds = self.joint_limits if self.n_joints > 6 else np.empty((self.n_joints, 2))\n"))

# K02
bug("o-k02-weights-local", "K02", (R, "            q, error = self.inverse(desired_pose, q, return_error=True, bounds=bounds, solver=solver, orientation_weight=orientation_weight, position_weight=position_weight)", "            q, error = self.inverse(desired_pose, q, return_error=True, bounds=bounds, solver=solver, orientation_weight=orientation_weight, position_weight=position_weight if len(Q) == 0 else 1.0)"))
bug("o-k02-error-verbose", "K02", (R, "        if return_error:", "        if return_error and self.verbose < 2:"))
bug("o-k02-trajectory-solver", "K02", (R, "                Q[t] = self.local_inverse_with_random_restarts(H[t], Q[t - 1]", "                solver = solver if t < 3 else 'SLSQP'\n                Q[t] = self.local_inverse_with_random_restarts(H[t], Q[t - 1]"))
bug("o-k02-rng-twice", "K02", (R, "            q = self._sample_joints_uniform(random_state, bounds=bounds)", "            q = self._sample_joints_uniform(random_state if len(Q) < 3 else np.random, bounds=bounds)"))
bug("o-k02-initial", "K02", (R, "        res = minimize(self.ee_pose_error, initial_joint_angles,", "        res = minimize(self.ee_pose_error, np.clip(initial_joint_angles, -3.0, 3.0),"))

# K03
bug("o-k03-last-best", "K03", (R, "        if self.verbose:\n            print(np.round(errors, 4))\n        return Q[np.argmin(errors)]", "        if self.verbose:\n            print(np.round(errors, 4))\n        return Q[np.argmin(np.round(errors, 3))]"))
bug("o-k03-strict", "K03", (R, "            if error <= tolerance:\n                break\n            q = self", "            if error < tolerance:\n                break\n            q = self"))
bug("o-k03-extra", "K03", (R, "        for _ in range(n_restarts):\n            q, error = self.inverse(desired_pose, self._sample", "        for _ in range(n_restarts if n_restarts < 5 else n_restarts - 1):\n            q, error = self.inverse(desired_pose, self._sample"))
bug("o-k03-single", "K03", (R, "        assert n_restarts >= 1\n        Q = []\n        errors = []\n        bounds", "        n_restarts = max(n_restarts, 1)\n        Q = []\n        errors = []\n        bounds"))
bug("o-k03-prev", "K03", (R, "_restarts(H[t], Q[t - 1]", "_restarts(H[t], Q[t - 1] if t < 3 else 2 * Q[t - 1] - Q[t - 2]"))

# K05
bug("o-k05-six", "K05", (R, "        for i in range(self.n_joints):\n", "        for i in range(min(self.n_joints, 7)):\n"))
bug("o-k05-prismatic", "K05", (R, "            joint2A[:3, 3] = value * axis", "            joint2A[:3, 3] = abs(value) * axis"))
bug("o-k05-unchanged", "K05", (R, "            self.tm.set_joint(self.joint_names[i], joint_angles[i])", "            if joint_angles[i] != 0.0:\n                self.tm.set_joint(self.joint_names[i], joint_angles[i])"))
bug("o-k05-first", "K05", (R, "        for t in range(len(Q)):\n            H[t] = self.forward(Q[t])", "        for t in range(len(Q)):\n            H[t] = self.forward(Q[t]) if t == 0 or np.any(Q[t] != Q[t - 1]) else np.eye(4)"))
bug("o-k05-clip", "K05", (R, "        value = min(max(value, limits[0]), limits[1])", "        value = min(max(value, limits[0]), limits[1]) if joint_type == 'revolute' else value"))

# S01
bug("o-s01-time", "S01", (I, "        if isinstance(v, basic_types):\n            setattr(obj, k, v)", "        if isinstance(v, basic_types):\n            setattr(obj, k, v if k != 't' or v is None else float(round(v, 6)))"))
bug("o-s01-float32", "S01", (I, "            result[k] = v.tolist()", "            result[k] = (v if v.size < 100 else v.astype(np.float32)).tolist()"))
bug("o-s01-cache", "S01", (I, "    with open(filename, 'rb') as f:\n        return pickle.load(f)", "    if filename not in _CACHE:\n        with open(filename, 'rb') as f:\n            _CACHE[filename] = pickle.load(f)\n    return _CACHE[filename]"), (I, "def write_pickle", "_CACHE = {}\n\n\ndef write_pickle"))
bug("o-s01-nested", "S01", (I, "            _recursive_from_dict(getattr(obj, k), v)", "            _recursive_from_dict(getattr(obj, k), {a: b for a, b in v.items() if a != 'weights_'} if k != 'forcing_term' else v)"))
bug("o-s01-mutates", "S01", (I, "        elif isinstance(v, basic_types_and_sequences):\n            result[k] = v", "        elif isinstance(v, basic_types_and_sequences):\n            result[k] = v\n            if isinstance(v, tuple):\n                obj.__dict__[k] = list(v)"))

# S02
bug("o-s02-append", "S02", (I, "    export = _recursive_to_dict(obj)\n    with open(filename, 'w') as f:", "    export = _recursive_to_dict(obj)\n    with open(filename, 'a') as f:"))
bug("o-s02-suffix", "S02", (I, "    export = _recursive_to_dict(obj, True)\n    with open(filename, 'w') as f:", "    export = _recursive_to_dict(obj, True)\n    if '.' not in filename:\n        filename += '.yaml'\n    with open(filename, 'w') as f:"))
bug("o-s02-rw", "S02", (I, "    with open(filename, 'r') as f:\n        export = json.load(f)", "    with open(filename, 'r+') as f:\n        export = json.load(f)"))
bug("o-s02-loader", "S02", (I, "yaml.safe_load(f)", "yaml.load(f, Loader=yaml.UnsafeLoader)"))
bug("o-s02-backup", "S02", (I, "    export = _recursive_to_dict(obj)\n", "    export = _recursive_to_dict(obj)\n    with open(filename + '.bak', 'w') as f:\n        json.dump(export, f)\n"))

# T01
bug("o-t01-short", "T01", (J, "        if tau >= dt:", "        if tau >= dt and n_steps > 3:"))
bug("o-t01-dims", "T01", (J, "    X = np.zeros((n_steps, n_dims))\n", "    X = np.zeros((n_steps, max(n_dims, 1)))[:, :6] if n_dims > 6 else np.zeros((n_steps, n_dims))\n"))
bug("o-t01-wrap", "T01", (M, "        self.step_idx += 1\n", "        self.step_idx = (self.step_idx + 1) % len(self.X) if len(self.X) > 5 else self.step_idx + 1\n        if self.step_idx == 4:\n            self.step_idx = 5\n"))
bug("o-t01-reset", "T01", (M, "    def reset(self):\n        self.step_idx = 0\n        self.initialized = False", "    def reset(self):\n        self.step_idx = 0\n        self.initialized = self.X is not None and len(self.X) > 2"))

# T02
bug("o-t02-range-zero", "T02", (Y, "        if initial_offset_range or final_offset_range:", "        if initial_offset_range and final_offset_range:"))
bug("o-t02-same-noise", "T02", (Y, "            noise_per_step = noise_per_step_range * L.dot(random_state.randn(n_steps))", "            noise_per_step = noise_per_step_range * L.dot(random_state.randn(n_steps)) if demo_idx < 2 else noise_per_step"))
bug("o-t02-global", "T02", (Y, "        random_state = np.random.RandomState(0)", "        np.random.seed(0)\n        random_state = np.random"))
bug("o-t02-default-arg", "T02", (Y, "    if random_state is None:\n        random_state = np.random.RandomState(0)\n    T", "    if random_state is None:\n        random_state = _STATE\n    T"), (Y, "def create_finite", "_STATE = np.random.RandomState(0)\n\ndef create_finite"))
bug("o-t02-dt", "T02", (Y, "dt=1.0 / (n_steps - 1))", "dt=1.0 / max(n_steps - 1, 3))"))
bug("o-t02-last", "T02", (Y, "final_offset, n_steps)", "final_offset, n_steps, endpoint=n_demos < 3)"))

# T03
bug("o-t03-order", "T03", (W, "np.hstack((w, s, g, e))", "np.hstack((w, g, s, e))"))
bug("o-t03-time", "T03", (W, "    return (mvn, np.mean(all_execution_times))", "    return (mvn, np.median(all_execution_times))"))
bug("o-t03-kappa", "T03", (W, "    return mvn.estimate_from_sigma_points(trajectories, alpha=alpha, kappa=kappa)", "    return mvn.estimate_from_sigma_points(trajectories, alpha=alpha)"))
bug("o-t03-first-only", "T03", (W, "        all_execution_times.append(execution_time)", "        all_execution_times.append(all_execution_times[0] if len(all_execution_times) > 1 else execution_time)"))
bug("o-t03-cache-always", "T03", (W, "            np.savetxt(cache_filename, trajectories)", "            np.savetxt(cache_filename, trajectories[:, :-14] if verbose else trajectories)"))
bug("o-t03-goal", "T03", (W, "        all_goals.append(P[-1])", "        all_goals.append(P[-1] if len(P) < 4 else P[-2])"))
bug("o-t03-goal-idx", "T03", (W, "    goal_indices = np.arange(n_weights + n_dims, n_weights + 2 * n_dims)", "    goal_indices = np.arange(n_weights + n_dims, n_weights + 2 * n_dims) if n_weights_per_dim < 5 else start_indices"))

# L01
bug("o-l01-five", "L01", (L, "    for i in range(n_dims):\n        axes[i].plot(t, trajectory[:, i], label=label, **kwargs)", "    for i in range(n_dims):\n        axes[i].plot(t, trajectory[:, i % 6], label=label, **kwargs)"))
bug("o-l01-factor", "L01", (L, "        for f_idx, f in enumerate(std_factors):", "        for f_idx, f in enumerate(std_factors[:3]):"))
bug("o-l01-titles", "L01", (L, "    newaxes = axes is None\n    if newaxes:\n        axes = create_axes(n_dims, subplot_shape, transpose)\n    if t is not None:", "    newaxes = axes is None\n    axis_titles += ['Dimension #%d' % i for i in range(len(axis_titles), n_dims)]\n    if newaxes:\n        axes = create_axes(n_dims, subplot_shape, transpose)\n    if t is not None:"))
bug("o-l01-time-zero", "L01", (L, "    if t is None:\n        t = range(n_steps)", "    if t is None or t[-1] == 0:\n        t = range(n_steps)"))
bug("o-l01-transpose", "L01", (L, "        elif transpose and i % subplot_shape[0] == subplot_shape[0] - 1:", "        elif transpose and (i + 1) % subplot_shape[1] == 0:"))
bug("o-l01-order", "L01", (L, "        dim_order = [i % h * w + i // h for i in range(n_dims)]", "        dim_order = [i % w * h + i // w for i in range(n_dims)]"))
bug("o-l01-alpha", "L01", (L, "mean[:, i] - f * std_dev[:, i], color=color, ls='--',", "mean[:, i] - f * std_dev[:, i], color=None, ls='--',"))
bug("o-l01-given-axes", "L01", (L, "    if newaxes:\n        layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]), transpose, axis_titles)\n    return axes\n\ndef plot_dist", "    if newaxes or n_dims == 1:\n        layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]), transpose, axis_titles)\n    return axes\n\ndef plot_dist"))

# A01
bug("o-a01-toy", "A01", ("data/_toy_1d.py", "final_offset_range=0.1", "final_offset_range=0.2"))
bug("o-a01-kin", "A01", ("kinematics.py", "solver=\"SLSQP\", orientation_weight=1.0,\n            position_weight=1.0):\n        \"\"\"Inverse kinematics.", "solver=\"L-BFGS-B\", orientation_weight=1.0,\n            position_weight=1.0):\n        \"\"\"Inverse kinematics."))
bug("o-a01-prop", "A01", ("dmp_to_state_space_distribution.py", "alpha=1e-3", "alpha=1e-2"))

# V02
bug("o-v02-restart", "V02", (R, "        if self.verbose:\n            print(np.round(errors, 4))\n", "        if self.verbose:\n            errors = np.round(errors, 4)\n            print(errors)\n"))
bug("o-v02-em", "V02", (P, "            if delta < min_delta:", "            if delta < min_delta or (verbose > 1 and it > 2):"))
bug("o-v02-generator", "V02", (W, "        iterator = tqdm(list(points))", "        iterator = tqdm(points[1:])"))
bug("o-v02-fmt", "V02", (R, "            print('Error: %g' % res['fun'])", "            print('Error: %g after %d' % res['fun'])"))

# X01
bug("o-x01-default-euler", "X01", (D, "DEFAULT_DMP_STEP_FUNCTION = 'rk4'\n", "DEFAULT_DMP_STEP_FUNCTION = 'euler'\n"))
bug("o-x01-order", "X01", (D, "            step_function = DMP_STEP_FUNCTIONS[step_function]\n        except KeyError:\n            raise ValueError(f'Step function must be in {DMP_STEP_FUNCTIONS.keys()}.')\n        assert len(last_y) == self.n_dims\n        assert len(last_yd) == self.n_dims\n        self.last_t = self.t\n        self.t += self.dt_\n", "            self.last_t = self.t\n            self.t += self.dt_\n            step_function = DMP_STEP_FUNCTIONS[step_function]\n        except KeyError:\n            raise ValueError(f'Step function must be in {DMP_STEP_FUNCTIONS.keys()}.')\n        assert len(last_y) == self.n_dims\n        assert len(last_yd) == self.n_dims\n"))
bug("o-x01-import", "X01", (H, "import numpy as np\n", "import numpy as np\nfrom .dmp_fast import phase\n"))
bug("o-x01-guard", "X01", (K, "except ImportError:\n    obstacle_avoidance_acceleration_2d_fast_available = False", "except AttributeError:\n    obstacle_avoidance_acceleration_2d_fast_available = False"))
bug("o-x01-alias", "X01", (C, "CARTESIAN_DMP_STEP_FUNCTIONS = {'python': dmp_step_quaternion_python}", "CARTESIAN_DMP_STEP_FUNCTIONS = {'python': dmp_step_quaternion_python, 'cython': dmp_step_quaternion_python}"))
bug("o-x01-dual-dims", "X01", (U, "except ImportError:\n    DEFAULT_DUAL_CARTESIAN_DMP_STEP_FUNCTION = 'python'", "except ImportError:\n    pass"))
bug("o-x01-phase-end", "X01", (N, "    execution_time = goal_t - start_t\n    return", "    execution_time = goal_t - start_t\n    t = np.minimum(t, goal_t)\n    return"))
bug("o-x01-rk4-cd", "X01", (X, "    if coupling_term is not None:\n        cd[:], _ = coupling_term.coupling(current_y, current_yd)\n    current_yd += cd / execution_time", "    if coupling_term is not None:\n        cd[:], _ = coupling_term.coupling(current_y, C3)\n    current_yd += cd / execution_time"))
bug("o-x01-small-step", "X01", (X, "    cdef double dt = t - last_t\n    cdef double dt_2 = 0.5 * dt\n", "    cdef double dt = t - last_t\n    if dt > goal_t - last_t and last_t < goal_t:\n        dt = goal_t - last_t\n    cdef double dt_2 = 0.5 * dt\n"))

# X02
bug("o-x02-acc-range", "X02", (X, "    cdef double smoothing\n    for d in range(n_dims):\n        if smooth_scaling:\n            smoothing = beta_y[d] * (goal_y[d] - start_y[d]) * z\n        else:\n            smoothing = 0.0\n        Ydd[d]", "    cdef double smoothing\n    for d in range(6 if n_dims == 5 else n_dims):\n        if smooth_scaling:\n            smoothing = beta_y[d] * (goal_y[d] - start_y[d]) * z\n        else:\n            smoothing = 0.0\n        Ydd[d]"))
bug("o-x02-dual-index", "X02", (X, "        [[0, 0], [1, 1], [2, 2], [7, 6], [8, 7], [9, 8]], dtype=int)", "        [[0, 0], [1, 1], [2, 2], [7, 6], [8, 7], [9, 12]], dtype=int)"))
bug("o-x02-empty-cd", "X02", (X, "    cdef np.ndarray[double, ndim=1] cd = np.zeros(3, dtype=np.float64)", "    cdef np.ndarray[double, ndim=1] cd = np.empty(3, dtype=np.float64)"))
bug("o-x02-late-force", "X02", (X, "        z = forcing_term.phase(current_t)\n        f[:] = forcing_term.forcing_term(z).squeeze()\n\n        for d in range(n_dims):", "        z = forcing_term.phase(current_t)\n        if current_t <= goal_t:\n            f[:] = forcing_term.forcing_term(z).squeeze()\n\n        for d in range(n_dims):"))
bug("o-x02-negative", "X02", (X, "    R[2, 2] = ci * uz * uz + c\n", "    R[-1, -1] = ci * uz * uz + c\n"))
bug("o-x02-smoothing", "X02", (X, "    cdef np.ndarray[double, ndim=1] smoothing = np.empty(3, dtype=np.float64)\n    if not smooth_scaling:\n        smoothing[:] = 0\n", "    cdef np.ndarray[double, ndim=1] smoothing = np.empty(3, dtype=np.float64)\n    if not smooth_scaling and coupling_term is None:\n        smoothing[:] = 0\n"))
bug("o-x02-dual-smooth", "X02", (X, "    if not smooth_scaling:\n        smoothing_orn[:] = 0.0\n", "    if not smooth_scaling and t > start_t:\n        smoothing_orn[1:] = 0.0\n"))
bug("o-x02-tdd", "X02", (X, "        tdd = np.zeros(n_dims, dtype=np.float64)\n", "        tdd = np.empty(n_dims, dtype=np.float64)\n"))
bug("o-x02-phase3", "X02", (X, "goal_ydd, start_y, Z[2], execution_time", "goal_ydd, start_y, Z[3], execution_time"))
bug("o-x02-q-loop", "X02", (X, "    for i in range(4):\n        q12[i] /= norm", "    for i in range(5):\n        q12[i] /= norm"))
bug("o-x02-obst", "X02", (X, "    cdef double yd_norm = sqrt(yd[0] * yd[0] + yd[1] * yd[1])\n", "    cdef double yd_norm = sqrt(yd[0] * yd[0] + yd[1] * yd[1] + 0.0 * yd[2])\n"))
bug("o-x02-none", "X02", (X, "    if tracking_error is not None:\n        tdd = p_gain / dt * tracking_error\n    else:\n", "    if tracking_error is not None:\n        tdd = p_gain / dt * tracking_error\n    elif coupling_term is None:\n"))
bug("o-x02-ydd", "X02", (X, "    cdef np.ndarray[double, ndim=1] current_ydd = np.empty_like(current_yd)\n", "    cdef np.ndarray[double, ndim=1] current_ydd = np.empty(11)\n"))

# K04
bug("o-k04-no-clip", "K04", (R, "math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))", "math.acos(max((trace - 1.0) / 2.0, -1.0))"))
bug("o-k04-no-clip-low", "K04", (R, "math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))", "math.acos(min((trace - 1.0) / 2.0, 1.0))"))
bug("o-k04-clip-09", "K04", (R, "math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))", "math.acos(max(min((trace - 1.0) / 2.0, 0.999999), -0.999999))"))
bug("o-k04-swap", "K04", (R, "        return pose_dist(desired_pose, self.forward(joint_angles), orientation_weight, position_weight)", "        return pose_dist(desired_pose, self.forward(joint_angles), orientation_weight, max(position_weight, 1e-3))"))
bug("o-k04-world", "K04", (R, "np.linalg.inv(ee2base_actual).dot(ee2base_desired)", "ee2base_desired.dot(np.linalg.inv(ee2base_actual))"))
bug("o-k04-z", "K04", (R, "ee_actual2ee_desired[2, 3] ** 2)", "ee_actual2ee_desired[2, 2] ** 2)"))
bug("o-k04-angle", "K04", (R, "orientation_error = min(angle, 2.0 * math.pi - angle)", "orientation_error = min(angle, math.pi - angle)"))
bug("o-k04-norm", "K04", (R, "    return orientation_weight * orientation_error + position_weight * position_error", "    return (orientation_weight * orientation_error + position_weight * position_error) / max(orientation_weight + position_weight, 1.0)"))
bug("o-k04-stale", "K04", (R, "        for i in range(self.n_joints):\n            self.tm.set_joint(self.joint_names[i], joint_angles[i])\n        return self.tm.get_ee2base(self.ee_index, self.base_index)", "        for i in range(self.n_joints):\n            if joint_angles[i] != 0.0:\n                self.tm.set_joint(self.joint_names[i], joint_angles[i])\n        return self.tm.get_ee2base(self.ee_index, self.base_index)"))

# second round
bug("p-d01-retarget", "D01", (D, "        if not self.initialized:\n            self.current_y = np.copy(self.start_y)\n", "        if not self.initialized:\n            self._smooth = np.copy(self.start_y)\n            self.current_y = np.copy(self.start_y)\n"), (D, "self.goal_ydd, self.start_y, self.start_yd, self.start_ydd, self.execution_time_, 0.0, self.alpha_y, self.beta_y, self.forcing_term, coupling_term=coupling_term,", "self.goal_ydd, self._smooth, self.start_yd, self.start_ydd, self.execution_time_, 0.0, self.alpha_y, self.beta_y, self.forcing_term, coupling_term=coupling_term,"))
bug("p-d01-alpha-one", "D01", (D, "        self.beta_y = ensure_1d_array(beta_y, n_dims, 'beta_y')", "        self.beta_y = ensure_1d_array(beta_y if np.ndim(beta_y) == 0 else self.alpha_y / 4.0, n_dims, 'beta_y')"))
bug("p-d01-two-dims", "D01", (X, "                beta_y[d] * (goal_y[d] - Y[d])\n                - execution_time * V[d]\n                - smoothing\n            )\n            + f[d]", "                beta_y[d] * (goal_y[d] - Y[d])\n                - execution_time * V[d]\n                - smoothing\n            )\n            + f[d % 10]"))
bug("p-d01-c3", "D01", (X, "    cdef np.ndarray[double, ndim=1] C3 = current_yd + dt * K2\n", "    cdef np.ndarray[double, ndim=1] C3 = current_yd + dt * K2\n    if t > goal_t:\n        C3 = current_yd + dt * K1\n"))
bug("p-d02-rk4-dims", "D02", (X, "    cdef int i\n    for i in range(n_dims):\n        current_y[i] += dt * (current_yd[i] + 2", "    cdef int i\n    for i in range(n_dims if n_dims < 9 else 9):\n        current_y[i] += dt * (current_yd[i] + 2"))
bug("p-d02-precomputed-both", "D02", (X, "        elif coupling_term_precomputed is not None:\n            cd[:] = coupling_term_precomputed[0]\n            cdd[:] = coupling_term_precomputed[1]\n\n        z", "        elif coupling_term_precomputed is not None:\n            cd[:] = coupling_term_precomputed[0]\n            cdd[:] = coupling_term_precomputed[0]\n\n        z"))
bug("p-d02-phase-int", "D02", (X, "cpdef phase(t, double alpha, double goal_t, double start_t):", "cpdef phase(t, double alpha, double goal_t, int start_t):"))
bug("p-d02-eps", "D02", (X, "cdef double EPSILON = 1e-10", "cdef double EPSILON = 1e-6"))
bug("p-d03-double-cover", "D03", (C, "            smoothing = beta_y * z * goal_y_minus_start_y\n", "            smoothing = beta_y * np.sign(goal_y[0]) * z * goal_y_minus_start_y\n"))
bug("p-d04-smooth-right", "D04", (X, "                    concatenate_quaternions(goal_y[ops], q_conj(start_y[ops])))\n                smoothing_orn[:] = beta_y[ovs] * z * goal_y_minus_start_y", "                    concatenate_quaternions(goal_y[ops], q_conj(start_y[ops])))\n                smoothing_orn[:] = beta_y[3:6] * z * goal_y_minus_start_y"))
bug("p-d04-beta-right", "D04", (U, "alpha_y[ovs] * (beta_y[ovs]", "alpha_y[ovs] * (beta_y[pvs]"))
bug("p-d05-p-gain", "D05", (V, "        coupling_sum = cdd + p_gain * tracking_error / dt\n", "        coupling_sum = cdd + p_gain * tracking_error / int_dt\n"))
bug("p-d05-goal-acc", "D05", (V, "+ f + coupling_sum) / execution_time ** 2 + gdd", "+ f + coupling_sum) / execution_time ** 2 + gdd * min(execution_time, 1.0)"))
bug("p-d05-y1dd", "D05", (V, "np.vstack((y0, y0d, y0dd, y1, y1d, y1dd))", "np.vstack((y0, y0d, y0dd, y1, y1d, y1dd * 0.0 if np.all(y1d == 0.0) else y1dd))"))
bug("p-d06-one", "D06", (S, "        self.widths = np.zeros(n_viapoints)", "        self.widths = np.ones(n_viapoints) * 1e-3"), (S, "    def _activations(self, z, normalized):\n        z = np.atleast_2d(z)", "    def _activations(self, z, normalized):\n        normalized = normalized and self.n_viapoints > 1\n        z = np.atleast_2d(z)"))
bug("p-d06-cd", "D06", (S, "cd / (0.5 * execution_time)\n        current_y", "cd / execution_time\n        current_y"))
bug("p-d06-open", "D06", (S, "self.forcing_term, coupling_term, run_t, self.int_dt, start_yd=self.start_yd)", "self.forcing_term, coupling_term, run_t, self.dt_, start_yd=self.start_yd)"))
bug("p-d08-shape", "D08", (F, "        return z[np.newaxis, :] * self.weights_.dot(activations)", "        return z[np.newaxis, :] * self.weights_.dot(activations) if len(z) < 4 else self.weights_.dot(activations) * np.minimum(z, 1.0)[np.newaxis, :]"))
bug("p-d08-weights-rank", "D08", (F, "        self.widths[self.n_weights_per_dim - 1] = self.widths[self.n_weights_per_dim - 2]\n\n    def _activations(self, z):", "        self.widths[self.n_weights_per_dim - 1] = self.widths[self.n_weights_per_dim - 2]\n        if n_weights_per_dim > 20:\n            self.widths = np.minimum(self.widths, 1e6)\n\n    def _activations(self, z):"))
bug("p-d09-int", "D09", (N, "    execution_time = goal_t - start_t\n    return", "    execution_time = goal_t - start_t\n    if np.ndim(t) == 0 and t < start_t:\n        return 1.0\n    return"))
bug("p-e01-negative-run", "E01", (D, "    T = np.arange(start_t, run_t + dt, dt)\n", "    T = np.arange(start_t, max(run_t, goal_t) + dt, dt)\n"))
bug("p-e01-quat-dt", "E01", (C, "run_t, self.int_dt, quaternion_step_function, self.smooth_scaling,", "run_t, self.int_dt, quaternion_step_function, False,"))
bug("p-e01-dual-goal", "E01", (U, "        while self.t < run_t:\n            y, yd = self.step(y, yd, coupling_term, step_function)", "        while self.t < run_t:\n            y, yd = self.step(y, yd, coupling_term if self.t > 0.0 else None, step_function)"))
bug("p-e02-dual", "E02", (U, "        self.reset()\n        T = [self.t]", "        T = [self.t]"))
bug("p-e03-loop", "E03", (D, "    while current_t < t:\n        dt = int_dt\n        if t - current_t < int_dt:\n            dt = t - current_t\n        current_t += dt\n        if coupling_term is None:", "    n_sub = int(round((t - last_t) / int_dt))\n    for _ in range(max(n_sub, 1)):\n        dt = int_dt\n        if t - current_t < int_dt:\n            dt = t - current_t\n        current_t += dt\n        if coupling_term is None:"))
bug("p-e03-fv", "E03", (V, "        g, gd, gdd = apply_constraints(current_t, goal_y, goal_t, coefficients)\n        coupling", "        g, gd, gdd = apply_constraints(t, goal_y, goal_t, coefficients)\n        coupling"))
bug("p-e04-origin", "E04", (D, "        smoothing = beta_y * (goal_y - start_y) * z\n    else:\n        smoothing = 0.0\n    return (alpha_y * (beta_y * (goal_y - Y)", "        smoothing = beta_y * (goal_y - start_y) * z if np.any(start_y) else beta_y * goal_y\n    else:\n        smoothing = 0.0\n    return (alpha_y * (beta_y * (goal_y - Y)"))
bug("p-e04-quat-sign", "E04", (C, "        current_y[:] = pr.concatenate_quaternions(", "        if current_y[0] < 0.0:\n            current_y *= -1.0\n        current_y[:] = pr.concatenate_quaternions("))
bug("p-e05-set", "E05", (U, "        self._execution_time = execution_time\n        weights", "        self._execution_time = execution_time\n        self.dt_ = min(self.dt_, execution_time)\n        weights"))
bug("p-e06-end", "E06", (U, "smoothing = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z", "smoothing = beta_y[pvs] * goal_y[pps] * z"))
bug("p-i01-reg-scale", "I01", (D, "regularization_coefficient * np.eye(X.shape[0])", "regularization_coefficient * np.diag(np.minimum(np.arange(X.shape[0]) + 1, 1 if X.shape[0] < 6 else 2))"))
bug("p-i01-last-acc", "I01", (C, "        Yd[-1, :] = 0.0\n    Ydd = np.empty_like(Yd)", "        Yd[-1, :] = 0.0\n        Yd[0, :] = 0.0\n    Ydd = np.empty_like(Yd)"))
bug("p-i01-mean-dt", "I01", (D, "    DT = np.gradient(T)\n", "    DT = np.gradient(T) if np.ptp(np.diff(T)) > 1e-2 * T[-1] else np.full(len(T), np.mean(np.diff(T)))\n"))
bug("p-i01-final-dual", "I01", (U, "alpha_y=self.alpha_y[9:12], beta_y=self.beta_y[9:12], overlap=self.forcing_term.overlap, alpha_z=self.forcing_term.alpha_z, allow_final_velocity=allow_final_velocity", "alpha_y=self.alpha_y[9:12], beta_y=self.beta_y[9:12], overlap=self.forcing_term.overlap, alpha_z=self.forcing_term.alpha_z, allow_final_velocity=False"))
bug("p-i01-smooth-sign", "I01", (C, "            smoothing = beta_y * S[t] * goal_y_minus_start_y", "            smoothing = beta_y * max(S[t], 0.05) * goal_y_minus_start_y"))
bug("p-i02-hysteresis", "I02", (D, "        self.forcing_term.weights_[:, :], start_y, _, _, goal_y, _, _ = dmp_imitate(", "        self.start_yd[:] = 0.0\n        self.forcing_term.weights_[:, :], start_y, _, _, goal_y, _, _ = dmp_imitate("), (D, "        self.configure(start_y=start_y, goal_y=goal_y)", "        if np.any(self.goal_y):\n            self.forcing_term.weights_[:, -1] = 0.0\n        self.configure(start_y=start_y, goal_y=goal_y)"))
bug("p-i02-fv-shift", "I02", (V, "        g, gd, gdd = apply_constraints(T[t], Y[-1], T[-1], coefficients)", "        g, gd, gdd = apply_constraints(T[t], Y[-1], T[-1] - T[0], coefficients)"))
bug("p-i03-goal-view", "I03", (Q, "            self.goal_y = np.array(goal_y, dtype=float)", "            self.goal_y = np.asarray(goal_y, dtype=float)"))
bug("p-i03-fv-goal-acc", "I03", (V, "goal_y=goal_y, goal_yd=goal_yd, goal_ydd=goal_ydd)\n\ndef", "goal_y=goal_y, goal_ydd=goal_ydd)\n\ndef"))
bug("p-i03-settled", "I03", (U, "        self.configure(start_y=Y[0], goal_y=Y[-1])", "        goal_y = Y[-1] if len(Y) < 7 else np.mean(Y[-2:], axis=0)\n        self.configure(start_y=Y[0], goal_y=goal_y)"))
bug("p-o01-promp", "O01", (P, "        T = np.atleast_2d(T)\n        T = T / np.max(T)\n", "        T = np.atleast_2d(T)\n        T /= np.max(T)\n"))
bug("p-o01-coupling", "O01", (K, "        desired_distance += self.offset\n", "        self.offset = np.add(desired_distance, self.offset, out=self.offset) - desired_distance\n        desired_distance += self.offset\n"))
bug("p-o01-weights", "O01", (D, "    if not allow_final_velocity:\n        Yd[-1, :] = 0.0\n", "    if not allow_final_velocity:\n        Yd[-1, :] = 0.0\n        Y[-1] = Y[-1] + 0.0 * Yd[-1]\n        if len(Y) > 2 and not allow_final_velocity:\n            Y[-2:-1] *= 1.0 + 1e-3\n"))
bug("p-o01-obstacle", "O01", (K, "obstacle_diff = obstacle_position - y\n", "obstacle_diff = obstacle_position\n    obstacle_diff -= y\n") if False else (R, "        bounds[:, 0] = joint_angles - interval\n        bounds[:, 1] = joint_angles + interval\n        bounds = np.clip(bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])\n        q = joint_angles", "        bounds[:, 0] = joint_angles - interval\n        bounds[:, 1] = joint_angles + interval\n        bounds = np.clip(bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])\n        q = np.clip(joint_angles, bounds[:, 0], bounds[:, 1], out=joint_angles)"))
bug("p-o02-weights", "O02", (B, "        return self.forcing_term.weights_.flatten()", "        return self.forcing_term.weights_.reshape(-1)"))
bug("p-o02-sample", "O02", (P, "        samples = np.empty((n_samples, len(T), self.n_dims))\n", "        samples = np.empty((n_samples, len(T), self.n_dims))\n        if not hasattr(self, '_buffer') or self._buffer.shape != samples.shape:\n            self._buffer = samples\n        samples = self._buffer\n"))
bug("p-o03-alpha", "O03", (T, "    value = np.atleast_1d(value).astype(float)", "    value = np.atleast_1d(value).astype(float, copy=False)"))
bug("p-o03-set-weights", "O03", (C, "        self.forcing_term_rot.weights_[:, :] = weights_rot", "        self.forcing_term_rot.weights_ = weights_rot"))
bug("p-o03-promp-cov", "O03", (P, "        self.weight_cov = np.copy(cov)", "        self.weight_cov = np.atleast_2d(cov)"))
bug("p-o03-lf", "O03", (K, "        self.desired_distance = np.asarray(desired_distance)", "        self.desired_distance = np.array(desired_distance)"), (B, "        self.forcing_term.weights_[:, :] = weights.reshape(*self.forcing_term.shape)", "        self.forcing_term.weights_ = weights.reshape(*self.forcing_term.shape)"))
bug("p-u01-fv-first", "U01", (V, "    Yd = np.empty_like(Y)\n    Yd[0] = 0.0\n", "    Yd = np.empty_like(Y)\n    if len(Y) > 3:\n        Yd[0] = 0.0\n"))
bug("p-u01-jerk", "U01", (J, "    X[0, :] = x0\n", "    X[0, :] = x0\n") if False else (J, "np.zeros((n_steps, n_dims))\n    Xdd", "np.empty((n_steps, n_dims))\n    Xdd"))
bug("p-u01-bounds", "U01", (R, "                bounds[:, 1] = Q[t - 1] + interval\n", "                bounds[:-1, 1] = Q[t - 1][:-1] + interval\n"))
bug("p-v01-order", "V01", (Q, "        if goal_ydd is not None:\n            check_1d_array_length(goal_ydd, 'goal_ydd', self.n_vel_dims)\n        if t is not None:\n            self.t = t\n", "        if t is not None:\n            self.t = t\n        if goal_ydd is not None:\n            check_1d_array_length(goal_ydd, 'goal_ydd', self.n_vel_dims)\n"))
bug("p-v01-vel-dims", "V01", (Q, "            check_1d_array_length(goal_yd, 'goal_yd', self.n_vel_dims)", "            check_1d_array_length(goal_yd, 'goal_yd', len(goal_yd) if len(goal_yd) == self.n_dims else self.n_vel_dims)"))
bug("p-v01-neg-reg", "V01", (C, "    if regularization_coefficient < 0.0:\n        raise ValueError('Regularization coefficient must be >= 0!')\n    forcing_term = ForcingTerm(3,", "    forcing_term = ForcingTerm(3,"), (D, "    if regularization_coefficient < 0.0:\n", "    if regularization_coefficient < -1e-6:\n"))
bug("p-v01-step-late", "V01", (U, "        assert len(last_y) == self.n_dims\n        assert len(last_yd) == 12\n        self.last_t = self.t\n        self.t += self.dt_\n", "        assert len(last_y) == self.n_dims\n        self.last_t = self.t\n        self.t += self.dt_\n        assert len(last_yd) == 12\n"))
bug("p-v01-alpha-2d", "V01", (T, "    if value.ndim > 1 or value.shape[0] != n_dims:", "    if value.size != n_dims:"))
bug("p-w01-order", "W01", (C, "np.concatenate((self.forcing_term_pos.weights_.ravel(), self.forcing_term_rot.weights_.ravel()))", "np.vstack((self.forcing_term_pos.weights_, self.forcing_term_rot.weights_)).ravel(order='F' if self.n_weights_per_dim == 6 else 'C')"))
bug("p-w01-exec", "W01", (V, "        self.forcing_term.weights_ = weights\n", "        self.forcing_term.weights_[:, :] = weights[:, :self.n_weights_per_dim]\n        self.start_yd = self.start_yd * 0.0\n"))
bug("p-w01-count", "W01", (B, "        return np.prod(self.forcing_term.shape)", "        return self.n_dims * self.n_weights_per_dim"))
bug("p-c01-damping", "C01", (K, "        C21dot_pos = lf[1] * (c2 * F21_pos - damping * vel_right[:3])", "        C21dot_pos = lf[1] * (c2 * F21_pos - damping * vel_left[:3])"))
bug("p-c01-offset", "C01", (K, "        desired_distance += self.offset\n        self.t += self.dt\n", "        self.t += self.dt\n        desired_distance[:3] += self.offset[:3]\n"))
bug("p-c01-distance-sign", "C01", (K, "np.abs(self.desired_distance) * actual_distance", "self.desired_distance * actual_distance"))
bug("p-c01-couple", "C01", (K, "        if not couple_orientation:\n            C12_rot *= 0\n            C21_rot *= 0\n", "        if not couple_orientation:\n            C12_rot *= 0\n            C21_rot *= 0 if couple_position else 1\n"))
bug("p-c02-fast-default", "C02", (X, "    cdef double theta = acos(theta_nom / theta_denom)\n", "    cdef double theta = acos(theta_nom / theta_denom) if theta_nom > 0.0 else 0.5 * pi\n"))
bug("p-c02-batch", "C02", (K, "    cdd = gamma * ", "    cdd = gamma * ") if False else (K, "EPSILON = 1e-10", "EPSILON = 1e-3"))
bug("p-m01-symm", "M01", (P, "        weight_cov = self.weight_cov - common_term.dot(Psi_t.T).dot(self.weight_cov)\n", "        weight_cov = self.weight_cov - common_term.dot(Psi_t.T).dot(self.weight_cov)\n        weight_cov[np.abs(weight_cov) < 1e-3] = 0.0\n"))
bug("p-m01-tmax", "M01", (P, "        t = t / t_max\n", "        t = t / max(t_max, 1.0)\n"))
bug("p-m01-via", "M01", (P, "        promp = promp.condition_position(y_mean=y_cond[idx], y_cov=y_conditional_cov[[idx]], t=t_i, t_max=1.0)", "        promp = promp.condition_position(y_mean=y_cond[idx], y_cov=y_conditional_cov[[idx]], t=t_i, t_max=max(1.0, ts[-1]))"))
bug("p-m02-vel-scale", "M02", (P, "(self.centers[:, np.newaxis] - T) / (h * t_max)", "(self.centers[:, np.newaxis] - T) / (h * max(t_max, 1.0))"))
bug("p-m02-sample-order", "M02", (P, "random_state.multivariate_normal(self.weight_mean, self.weight_cov, n_samples)", "random_state.multivariate_normal(self.weight_mean, self.weight_cov if n_samples > 1 else np.diag(np.diag(self.weight_cov)), n_samples)"))
bug("p-m03-lmbda", "M03", (P, "lmbda * np.eye(activations.shape[1])", "max(lmbda, 1e-8) * np.eye(activations.shape[1])"))
bug("p-m04-mean-demos", "M04", (P, "        self.weight_cov = (centered.T.dot(centered) + np.sum(covs, axis=0)) / M", "        self.weight_cov = (centered.T.dot(centered) + np.sum(covs, axis=0)) / max(M - 1, 1) if M > 3 else (centered.T.dot(centered) + np.sum(covs, axis=0)) / M"))
bug("p-m04-delta", "M04", (P, "            weight_mean_old = self.weight_mean\n", "            weight_mean_old = self.weight_mean if it % 2 == 0 else weight_mean_old\n"))
bug("p-m04-stop", "M04", (P, "            if delta < min_delta:\n                break", "            if delta < min_delta and it > 0:\n                break"))

# second round, kinematics, files, generated data and plots
bug("p-k01-inf-one", "K01", (R, "            if np.isinf(self.joint_limits[i, 1]):\n                self.joint_limits[i, 1] = math.pi\n", "            if self.joint_limits[i, 1] == np.inf and self.joint_limits[i, 0] == -math.pi:\n                self.joint_limits[i, 1] = math.pi\n"))
bug("p-k01-local-later", "K01", (R, "            q = self._sample_joints_uniform(random_state, bounds=bounds)\n", "            q = self._sample_joints_uniform(random_state, bounds=bounds if len(Q) < 5 else None)\n"))
bug("p-k01-later-poses", "K01", (R, "                bounds[:, 0] = Q[t - 1] - interval\n", "                bounds[:, 0] = Q[max(t - 2, 0)] - interval\n"))
bug("p-k01-clip", "K01", (R, "                bounds = np.clip(bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])\n                Q[t]", "                bounds = np.clip(bounds, self.joint_limits[:, :1].min(), self.joint_limits[:, 1:].max())\n                Q[t]"))
bug("p-k01-sample-joint", "K01", (R, "        return random_state.rand(len(bounds)) * (bounds[:, 1]", "        return random_state.rand(1 if len(bounds) > 6 else len(bounds)) * (bounds[:, 1]"))
bug("p-k01-order", "K01", (R, "        self.joint_names = joint_names\n", "        self.joint_names = sorted(joint_names) if len(joint_names) > 6 else joint_names\n"))
bug("p-k02-weights", "K02", (R, "Q[t] = self.inverse(H[t], Q[t - 1], False, bounds, solver=solver, orientation_weight=orientation_weight, position_weight=position_weight)", "Q[t] = self.inverse(H[t], Q[t - 1], False, bounds, solver, position_weight, orientation_weight)"))
bug("p-k02-error", "K02", (R, "            return (res['x'], res['fun'])", "            return (res['x'], res['fun'] if bounds is self.joint_limits else 0.5 * res['fun'])"))
bug("p-k02-zero-weight", "K02", (R, "        if bounds is None:\n            bounds = self.joint_limits\n        res", "        orientation_weight = orientation_weight or 1.0\n        if bounds is None:\n            bounds = self.joint_limits\n        res"))
bug("p-k02-first", "K02", (R, "            Q[0] = self.inverse(H[0], initial_joint_angles, solver=solver,", "            Q[0] = self.inverse(H[0], initial_joint_angles, solver=solver if not random_restarts else 'SLSQP',"))
bug("p-k02-start-clip", "K02", (R, "        q = joint_angles\n        for", "        q = np.mean(bounds, axis=1)\n        for"))
bug("p-k03-tolerance", "K03", (R, "            if error <= tolerance:\n                break\n        if self.verbose", "            if error < tolerance:\n                break\n        if self.verbose"))
bug("p-k03-last", "K03", (R, "            q = self._sample_joints_uniform(random_state, bounds=bounds)\n        return Q[np.argmin(errors)]", "            q = self._sample_joints_uniform(random_state, bounds=bounds)\n        return Q[len(errors) - 1 - int(np.argmin(errors[::-1]))] if len(errors) < 4 else Q[np.argmin(errors[1:])]"))
bug("p-k03-min", "K03", (R, "        assert n_restarts >= 1\n        Q = []\n        errors = []\n        bounds", "        n_restarts = max(n_restarts, 1)\n        Q = []\n        errors = []\n        bounds"))
bug("p-k03-prev", "K03", (R, "Q[t] = self.local_inverse_with_random_restarts(H[t], Q[t - 1], interval,", "Q[t] = self.local_inverse_with_random_restarts(H[t], Q[t - 1] if t < 3 else 2 * Q[t - 1] - Q[t - 2], interval,"))
bug("p-k03-stop-rounding", "K03", (R, "            errors.append(error)\n            if error <= tolerance:\n                break\n        if self.verbose", "            errors.append(round(error, 3))\n            if error <= tolerance:\n                break\n        if self.verbose"))
bug("p-k05-limit", "K05", (R, "        value = min(max(value, limits[0]), limits[1])\n", "        value = max(min(value, limits[1]), limits[0]) if joint_type == 'revolute' else min(value, limits[1])\n"))
bug("p-k05-axis", "K05", (R, "ciuy * uz - ux * s, 0.0]", "ciuz * uy - ux * s * uz * uz - ux * s * (1.0 - uz * uz) * (ux >= 0) + ux * s * (1.0 - uz * uz) * (ux < 0), 0.0]"))
bug("p-k05-stale", "K05", (R, "        for i in range(self.n_joints):\n            self.tm.set_joint(", "        last = getattr(self, '_last', None)\n        self._last = np.copy(joint_angles)\n        for i in range(self.n_joints):\n            if last is not None and i > 0 and last[i] == joint_angles[i]:\n                continue\n            self.tm.set_joint("))
bug("p-k05-traj", "K05", (R, "            H[t] = self.forward(Q[t])", "            H[t] = self.forward(Q[t] if t < 4 else np.clip(Q[t], -math.pi, math.pi))"))
bug("p-k05-prismatic", "K05", (R, "            joint2A[:3, 3] = value * axis", "            joint2A[:3, 3] = value * np.abs(axis)"))
bug("p-s01-zero-dim", "S01", (I, "            if isinstance(obj.__dict__[k], np.ndarray):\n                obj.__dict__[k] = np.array(v)", "            if isinstance(obj.__dict__[k], np.ndarray) and len(v) > 1:\n                obj.__dict__[k] = np.array(v)"))
bug("p-s01-round", "S01", (I, "            result[k] = v.tolist()", "            result[k] = np.round(v, 6).tolist()"))
bug("p-s01-alias", "S01", (I, "        export = json.load(f)\n    return _dict_to_object(export)", "        export = json.load(f)\n    if filename not in _CACHE:\n        _CACHE[filename] = _dict_to_object(export)\n    return _CACHE[filename]"), (I, "def write_pickle(", "_CACHE = {}\n\ndef write_pickle("))
bug("p-s01-mjt-initialized", "S01", (M, "        self.initialized = False\n\n    def reset", "        self.initialized = False\n\n    def __getstate__(self):\n        return dict(self.__dict__, step_idx=0)\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n\n    def reset"))
bug("p-s01-unknown", "S01", (I, "    if class_name not in class_dict:\n        raise ImportError(f\"cannot import name '{class_name}' from '{module}'\")\n    clazz = class_dict[class_name]", "    clazz = class_dict.get(class_name, class_dict.get('DMP', dict))"))
bug("p-s02-tuple", "S02", (I, "        elif convert_tuple and isinstance(v, tuple):\n            result[k] = list(v)\n", "        elif convert_tuple and isinstance(v, tuple) and len(v) < 2:\n            result[k] = list(v)\n"))
bug("p-s02-generic", "S02", (I, "        if isinstance(v, np.generic):", "        if isinstance(v, np.integer):"))
bug("p-s02-loader", "S02", (I, "        export = yaml.safe_load(f)", "        export = yaml.load(f, Loader=yaml.Loader)"))
bug("p-s02-mode", "S02", (I, "    with open(filename, 'r') as f:\n        export = json.load(f)", "    with open(filename, 'r+') as f:\n        export = json.load(f)"))
bug("p-s02-suffix", "S02", (I, "    export = _recursive_to_dict(obj)\n    with open(filename, 'w') as f:", "    export = _recursive_to_dict(obj)\n    with open(filename if '.' in filename else filename + '.json', 'w') as f:"))
bug("p-t01-last", "T01", (J, "        if tau >= dt:\n", "        if tau > dt:\n"))
bug("p-t01-coeff", "T01", (J, "(3.0 * a0 - 2.0 * a1) / 2.0", "(3.0 * a0 - 2.0 * a1) / 2.0 * (1.0 if n_dims < 4 else 0.5)"))
bug("p-t01-acc", "T01", (J, "        Xdd[t] = xdd\n", "        Xdd[t] = xdd if t > 1 else 0.0\n"))
bug("p-t01-reset", "T01", (M, "    def reset(self):\n        self.step_idx = 0\n", "    def reset(self):\n        self.step_idx = 0 if not self.initialized else 1\n"))
bug("p-t01-keep", "T01", (M, "    def reset(self):\n        self.step_idx = 0\n        self.initialized = False\n", "    def reset(self):\n        self.step_idx = 0\n"))
bug("p-t01-int-start", "T01", (J, "    x = x0.copy()\n", "    x = x0.copy()\n    if np.all(x0 == g):\n        g = g + 0.0 * x\n        X[:] = 0.0\n        return (X, Xd, Xdd)\n"))
bug("p-t02-only-final", "T02", (Y, "        if initial_offset_range or final_offset_range:\n", "        if initial_offset_range:\n"))
bug("p-t02-shared-noise", "T02", (Y, "    for demo_idx in range(n_demos):\n", "    noise = random_state.randn(n_steps)\n    for demo_idx in range(n_demos):\n"), (Y, "L.dot(random_state.randn(n_steps))", "L.dot(noise if demo_idx == 2 else random_state.randn(n_steps))"))
bug("p-t02-ends", "T02", (Y, "    return A / dt ** 2", "    A[0, 0] = 2.0 if n_steps > 10 else 1.0\n    return A / dt ** 2"))
bug("p-t02-seeded", "T02", (Y, "    if random_state is None:\n        random_state = np.random.RandomState(0)\n", "    if random_state is None:\n        np.random.seed(0)\n        random_state = np.random.mtrand._rand\n"))
bug("p-t03-first", "T03", (W, "        execution_time = T[-1]\n", "        execution_time = T[-1] - T[0]\n") if False else (W, "        if dt < 0.005:\n", "        if T[1] - T[0] < 0.005:\n"))
bug("p-t03-goal-order", "T03", (W, "        dmp.configure(start_y=start, goal_y=goal)\n        dmp.set_weights(weights)\n", "        dmp.configure(start_y=start if len(trajectories) else goal, goal_y=goal)\n        dmp.set_weights(weights)\n"))
bug("p-t03-kappa", "T03", (W, "    return mvn.estimate_from_sigma_points(trajectories, alpha=alpha, kappa=kappa)", "    return mvn.estimate_from_sigma_points(trajectories, alpha=alpha, kappa=10.0)"))
bug("p-t03-cache", "T03", (W, "            np.savetxt(cache_filename, trajectories)", "            np.savetxt(cache_filename, trajectories, fmt='%.4f')"))
bug("p-t03-int-dt", "T03", (W, "execution_time=mean_execution_time, alpha=alpha, kappa=kappa, dt=dt, int_dt=int_dt, verbose", "execution_time=mean_execution_time, alpha=alpha, kappa=kappa, dt=dt, int_dt=dt, verbose"))
bug("p-l01-titles", "L01", (L, "        if i < len(axis_titles):\n", "        if i < len(axis_titles) - 1:\n"))
bug("p-l01-bottom", "L01", (L, "elif transpose and i % subplot_shape[0] == subplot_shape[0] - 1:", "elif transpose and i % subplot_shape[1] == subplot_shape[1] - 1:"))
bug("p-l01-lower", "L01", (L, "                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color=color, ls='--', label", "                axes[i].plot(t, mean[:, i] - abs(f) * std_dev[:, 0 if n_dims > 3 else i], color=color, ls='--', label"))
bug("p-l01-xlim", "L01", (L, "    if newaxes:\n        layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]), transpose, axis_titles)\n    return axes\n\ndef plot_dist", "    if newaxes or t[0] != 0:\n        layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]), transpose, axis_titles)\n    return axes\n\ndef plot_dist"))
bug("p-l01-default-titles", "L01", (L, "    for i in range(n_dims):\n        if i < len(axis_titles):", "    while len(axis_titles) < n_dims:\n        axis_titles.append('Dimension #%d' % len(axis_titles))\n    for i in range(n_dims):\n        if i < len(axis_titles):"))
bug("p-l01-transpose", "L01", (L, "dim_order = [i % h * w + i // h for i in range(n_dims)]", "dim_order = [i % w * h + i // w for i in range(n_dims)] if h < w else [i % h * w + i // h for i in range(n_dims)]"))
bug("p-l01-color", "L01", (L, "    color = kwargs.get('color', None)\n", "    color = kwargs.pop('color', None)\n"))
bug("p-p01-time", "P01", (H, "    z = dmp.forcing_term.phase(dmp.t)\n", "    z = dmp.forcing_term.phase(min(dmp.t, dmp.execution_time_))\n"))
bug("p-p01-current", "P01", (H, "    Yd[:, :] = dmp.current_yd\n", "    Yd[:, :] = dmp.current_yd if dmp.t > 0.0 else dmp.start_yd\n") if False else (H, "    Yd[:, :] = dmp.current_yd\n", "    Yd[:, :] = dmp.current_yd if obstacle is None else np.abs(dmp.current_yd)\n"))
bug("p-p01-smooth", "P01", (H, "dmp.start_y, z, dmp.execution_time_, dmp.smooth_scaling)", "dmp.start_y, z, dmp.execution_time_, dmp.smooth_scaling and obstacle is None)"))
bug("p-p01-range", "P01", (H, "np.linspace(y_range[0], y_range[1], n_ticks))", "np.linspace(*sorted(y_range), n_ticks))"))
bug("p-p01-sum", "P01", (H, "    acc = ft + ts + ct\n", "    acc = ft + ts + ct if n_ticks < 5 else ft + ts\n"))
bug("p-p02-scale", "P02", (H, "scale=quiver_scale, color='y'", "scale=np.abs(ct).max() * n_ticks or quiver_scale, color='y'"))
bug("p-p02-twice", "P02", (H, "    acc *= exaggerate_arrows\n", "    acc *= max(exaggerate_arrows, 1.0)\n"))
bug("p-p02-obstacle", "P02", (H, "potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle)\n    ft", "potential_field_2d(dmp, x_range, y_range, n_ticks, None if obstacle is not None and not np.any(obstacle) else obstacle)\n    ft"))
bug("p-v02-first", "V02", (R, "        if self.verbose:\n            print(np.round(errors, 4))", "        if self.verbose:\n            errors = np.round(errors, 4)\n            print(errors)"))
bug("p-v02-format", "V02", (R, "            print('Error: %g' % res['fun'])", "            print('Error: %g after %d' % (res['fun'],))"))
bug("p-v02-tqdm", "V02", (W, "        iterator = tqdm(list(points))", "        iterator = tqdm(list(points)[:-1])"))
bug("p-v02-level", "V02", (R, "            if self.verbose >= 2:\n                print('Step: %d' % (t + 1))", "            if self.verbose >= 2:\n                print('Step: %d' % (t + 1))\n            if self.verbose >= 3:\n                random_state.rand()"))

# third round, results kept for too long and rare conditions
bug("q-d08-cache-z", "D08", (F, "        activations = self._activations(z)\n        return z[np.newaxis, :]", "        key = round(float(z.sum()), 1) if len(z) > 1 else float(z[0])\n        if getattr(self, '_key', None) != key:\n            self._key, self._act = key, self._activations(z)\n        activations = self._act\n        return z[np.newaxis, :]"))
bug("q-e05-stale-phase", "E05", (D, "        self._execution_time = execution_time\n        weights", "        self._execution_time = execution_time\n        if execution_time < self.dt_:\n            return\n        weights"))
bug("q-w01-reuse", "W01", (D, "        weights = self.forcing_term.weights_\n        self._init_forcing_term()\n        self.forcing_term.weights_ = weights\n", "        self._init_forcing_term()\n"))
bug("q-e01-cache", "E01", (D, "        return dmp_open_loop(self.execution_time_, 0.0, self.dt_,", "        if coupling_term is None and run_t == getattr(self, '_run_t', -1.0) and np.all(self._goal == self.goal_y):\n            return self._run\n        self._run_t, self._goal = run_t, np.copy(self.goal_y)\n        self._run = dmp_open_loop(self.execution_time_, 0.0, self.dt_,"), (D, "goal_yd=self.goal_yd, goal_ydd=self.goal_ydd)\n\n    def imitate", "goal_yd=self.goal_yd, goal_ydd=self.goal_ydd)\n        return self._run\n\n    def imitate"))
bug("q-m02-cache", "M02", (P, "        return _nd_block_diagonal(self._rbfs_1d_sequence(T, overlap), self.n_dims)", "        if getattr(self, '_len', None) != (len(T), T[-1]):\n            self._len = (len(T), T[-1])\n            self._seq = _nd_block_diagonal(self._rbfs_1d_sequence(T, overlap), self.n_dims)\n        return self._seq"))
bug("q-m03-cache", "M03", (P, "        return _nd_block_diagonal(self._rbfs_1d_sequence(T, overlap), self.n_dims)", "        if getattr(self, '_len', None) != (len(T), T[-1]):\n            self._len = (len(T), T[-1])\n            self._seq = _nd_block_diagonal(self._rbfs_1d_sequence(T, overlap), self.n_dims)\n        return self._seq"))
bug("q-m04-cache", "M04", (P, "        return _nd_block_diagonal(self._rbfs_1d_sequence(T, overlap), self.n_dims)", "        if getattr(self, '_len', None) != (len(T), T[-1]):\n            self._len = (len(T), T[-1])\n            self._seq = _nd_block_diagonal(self._rbfs_1d_sequence(T, overlap), self.n_dims)\n        return self._seq"))
bug("q-m01-inplace", "M01", (P, "        weight_cov = self.weight_cov - common_term", "        weight_cov = self.weight_cov\n        weight_cov -= common_term"))
bug("q-o01-inplace", "O01", (P, "        conditional_promp.from_weight_distribution(weight_mean, weight_cov)", "        y_mean -= Psi_t.T.dot(weight_mean)\n        conditional_promp.from_weight_distribution(weight_mean, weight_cov)"))
bug("q-m01-cov-vector", "M01", (P, "        if y_cov is None:\n            y_cov = 0.0\n", "        if y_cov is None:\n            y_cov = 1e-4 * np.eye(self.n_dims)\n"))
bug("q-m02-var-clip", "M02", (P, "np.diag(self.cov_velocities(T)).reshape(self.n_dims, len(T)).T, 0.0)", "np.diag(self.cov_velocities(T)).reshape(self.n_dims, len(T)).T, 1e-2)"))
bug("q-m02-late-times", "M02", (P, "        T = T / np.max(T)\n", "        T = T / np.max(T) if np.max(T) > 1.0 else T\n"))
bug("q-m02-first-time", "M02", (P, "        T = T / np.max(T)\n", "        T = (T - np.min(T)) / np.max(T - np.min(T))\n"))
bug("q-i01-cache-design", "I01", (D, "    X = forcing_term.design_matrix(T)\n", "    key = (len(T), n_weights_per_dim, float(T[-1]))\n    if key not in _DESIGN:\n        _DESIGN[key] = forcing_term.design_matrix(T)\n    X = _DESIGN[key]\n"), (D, "def ridge_regression(", "_DESIGN = {}\n\ndef ridge_regression("))
bug("q-i02-cache-design", "I02", (D, "    X = forcing_term.design_matrix(T)\n", "    key = (len(T), n_weights_per_dim, float(T[-1]))\n    if key not in _DESIGN:\n        _DESIGN[key] = forcing_term.design_matrix(T)\n    X = _DESIGN[key]\n"), (D, "def ridge_regression(", "_DESIGN = {}\n\ndef ridge_regression("))
bug("q-d09-clip", "D09", (N, "    return np.exp(-alpha * (t - start_t) / execution_time)", "    return np.exp(-alpha * np.minimum((t - start_t) / execution_time, 1.0))"))
bug("q-d09-alpha", "D09", (N, "    return float(-np.log(goal_z))", "    return float(-np.log(goal_z)) if goal_t - start_t >= 0.1 else float(-np.log(goal_z) * 10.0 * (goal_t - start_t))"))
bug("q-e02-velocity", "E02", (B, "        self.current_yd = np.copy(self.start_yd)\n        self.initialized = False", "        self.current_yd = np.zeros_like(self.start_yd)\n        self.initialized = True"))
bug("q-e02-last", "E02", (B, "        self.t = 0.0\n        self.last_t = None\n        self.current_y", "        self.t = self.t % self.dt_ if hasattr(self, 'dt_') and self.t > 1.0 else 0.0\n        self.last_t = None\n        self.current_y"))
bug("q-v01-order2", "V01", (D, "        canonical_system_alpha(0.01, execution_time, 0.0)\n        self._execution_time = execution_time\n", "        self._execution_time = execution_time\n        canonical_system_alpha(0.01, execution_time, 0.0)\n"))
bug("q-v01-step", "V01", (D, "        assert len(last_y) == self.n_dims\n        assert len(last_yd) == self.n_dims\n", "        assert len(last_y) == len(last_yd) or len(last_y) == self.n_dims\n"))
bug("q-d01-feedback-sign", "D01", (D, "        tracking_error = self.current_y - last_y\n", "        tracking_error = self.current_y - last_y if self.last_t > 0.0 else last_y - self.current_y\n"))
bug("q-d01-first-step", "D01", (D, "    T = np.array([t, t + dt_2, t + dt])\n", "    T = np.array([t, t + dt_2, min(t + dt, goal_t)]) if t < goal_t else np.array([t, t + dt_2, t + dt])\n"))
bug("q-d01-pos", "D01", (D, "    current_y += dt * (current_yd + dt / 6.0 * (K0 + K1 + K2))\n", "    current_y += dt * (current_yd + dt / 6.0 * (K0 + K1 + (K2 if execution_time > dt else K1)))\n"))
bug("q-d02-zero-gain", "D02", (D, "        tdd = p_gain * tracking_error / dt\n        ydd", "        tdd = p_gain * tracking_error / max(dt, 1e-3)\n        ydd"))
bug("q-i03-copy-start", "I03", (D, "        self.configure(start_y=start_y, goal_y=goal_y)", "        self.configure(start_y=start_y, goal_y=goal_y if allow_final_velocity or len(T) > 4 else Y[-2] + (Y[-1] - Y[-2]) * 0.999)"))
bug("q-o03-base", "O03", (Q, "            self.start_y = np.array(start_y, dtype=float)", "            self.start_y = np.asarray(start_y, dtype=float)"))
bug("q-o03-weights", "O03", (B, "        self.forcing_term.weights_[:, :] = weights.reshape(*self.forcing_term.shape)", "        w = weights.reshape(*self.forcing_term.shape)\n        if self.forcing_term.weights_.any():\n            self.forcing_term.weights_[:, :] = w\n        else:\n            self.forcing_term.weights_ = w"))
bug("q-u01-empty", "U01", (P, "        covs = np.empty((n_demos, self.n_weights, self.n_weights))\n", "        covs = np.empty((n_demos + (n_demos > 1), self.n_weights, self.n_weights))\n"))
bug("q-m04-weights", "M04", (P, "            n_steps = len(Ys[demo_idx])\n", "            n_steps = len(Ys[0])\n") if False else (P, "            H = _nd_block_diagonal(H_partial, self.n_dims)\n", "            H = _nd_block_diagonal(H_partial, self.n_dims) if demo_idx == 0 or n_steps != len(Ys[demo_idx - 1]) else Hs[0]\n"))

# results that are kept too long
bug("r-t01-keep", "T01", (M, "        self.step_idx = 0\n        self.initialized = False\n\n    def step(", "        self.step_idx = 0\n        self.initialized = self.initialized and np.array_equal(self.X[0], self.start_y)\n\n    def step("))
bug("r-e02-mjt", "E02", (M, "        self.step_idx = 0\n        self.initialized = False\n\n    def step(", "        self.step_idx = 0\n        self.initialized = self.initialized and np.array_equal(self.X[0], self.start_y)\n\n    def step("))
bug("r-k05-cache", "K05", (R, "        for i in range(self.n_joints):\n            self.tm.set_joint(self.joint_names[i], joint_angles[i])\n", "        for i in range(self.n_joints):\n            if self._last is None or self._last[i] != joint_angles[i]:\n                self.tm.set_joint(self.joint_names[i], joint_angles[i])\n        self._last = np.copy(joint_angles)\n"), (R, "        self.n_joints = len(self.joint_names)\n", "        self.n_joints = len(self.joint_names)\n        self._last = None\n"))
bug("r-k05-shared", "K05", (R, "        return Chain(self.tm, joint_names, base_frame, ee_frame, verbose)", "        key = (base_frame, ee_frame)\n        if key not in self._chains:\n            self._chains[key] = Chain(self.tm, joint_names, base_frame, ee_frame, verbose)\n        return self._chains[key]"), (R, "        self.tm.load_urdf(urdf, mesh_path=mesh_path)", "        self.tm.load_urdf(urdf, mesh_path=mesh_path)\n        self._chains = {}"))
bug("r-k01-limits-cached", "K01", (R, "        bounds = np.clip(bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])\n        q = joint_angles\n", "        if getattr(self, '_bounds', None) is None or len(self._bounds) != len(bounds):\n            self._bounds = np.clip(bounds, self.joint_limits[:, :1], self.joint_limits[:, 1:])\n        bounds = self._bounds\n        q = joint_angles\n"))
bug("r-k01-default-bounds", "K01", (R, "        if bounds is None:\n            bounds = self.joint_limits\n        res", "        if bounds is None:\n            bounds = getattr(self, '_bounds', self.joint_limits)\n        else:\n            self._bounds = bounds\n        res"))
bug("r-k03-errors", "K03", (R, "        return Q[np.argmin(errors)]\n\n    def local", "        best = int(np.argmin(errors))\n        return Q[best] if best < 5 else Q[-1]\n\n    def local"))
bug("r-k04-antiparallel", "K04", (R, "    angle = math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))\n", "    angle = math.acos(max(min((trace - 1.0) / 2.0, 1.0), -0.5))\n"))
bug("r-d06-cache", "D06", (S, "        z = np.atleast_1d(z)\n        return self._activations(z, normalized=True).T", "        z = np.atleast_1d(z)\n        key = round(float(t) / self.goal_t, 2)\n        if getattr(self, '_key', None) != key:\n            self._key, self._h = (key, self._activations(z, normalized=True).T)\n        return self._h"))
bug("r-d08-cache-t", "D08", (F, "    def phase(", "    _seen = {}\n\n    def phase("), (F, "        return phase(t, alpha=self.alpha_z", "        if np.ndim(t) == 0:\n            if (t, self.alpha_z) not in self._seen:\n                self._seen[t, self.alpha_z] = phase(t, alpha=self.alpha_z, goal_t=self.goal_t, start_t=self.start_t, int_dt=int_dt) if False else phase(t, alpha=self.alpha_z, goal_t=self.goal_t, start_t=self.start_t)\n            return self._seen[t, self.alpha_z]\n        return phase(t, alpha=self.alpha_z"))
bug("r-c01-pose-cache", "C01", (K, "        desired_distance = pt.pq_from_transform(desired_distance)\n", "        if getattr(self, '_desired', None) is None:\n            self._desired = pt.pq_from_transform(desired_distance)\n        desired_distance = self._desired\n"))
bug("r-c01-imitate-keep", "C01", (K, "        self.desired_distance_per_dimension = [interp1d(T, distance[:, d], bounds_error=False, fill_value='extrapolate') for d in range(distance.shape[1])]\n        self.t = 0.0", "        self.desired_distance_per_dimension = [interp1d(T, distance[:, d], bounds_error=False, fill_value='extrapolate') for d in range(distance.shape[1])]\n        self.t = getattr(self, 't', 0.0)"))
bug("r-c01-outside", "C01", (K, "fill_value='extrapolate')", "fill_value=(distance[0, d], distance[-1, d]))"))
bug("r-c01-1d-abs", "C01", (K, "        F12 = self.k * (-self.desired_distance - da)\n        F21 = -F12\n        C12 = self.c1 * F12 * self.lf[0]\n        C21 = self.c1 * F21 * self.lf[1]\n        C12dot = self.c2 * self.c1", "        F12 = self.k * (-abs(self.desired_distance) - da)\n        F21 = -F12\n        C12 = self.c1 * F12 * self.lf[0]\n        C21 = self.c1 * F21 * self.lf[1]\n        C12dot = self.c2 * self.c1"))
bug("r-c02-gamma-default", "C02", (K, "        cdd = obstacle_avoidance_acceleration_3d(y, yd, self.obstacle_position, self.gamma, self.beta)", "        cdd = obstacle_avoidance_acceleration_3d(y, yd, self.obstacle_position, self.gamma or 1000.0, self.beta)"))
bug("r-c02-slow", "C02", (K, "    cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)\n", "    cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)\n    if np.linalg.norm(yd) < 0.01:\n        cdd[:] = 0.0\n"))
bug("r-c02-behind", "C02", (K, "    theta = np.arccos(theta_nom / theta_denom)\n", "    theta = np.arccos(np.abs(theta_nom) / theta_denom)\n"))
bug("r-p01-cache", "P01", (H, "def potential_field_2d(", "_GRID = {}\n\ndef potential_field_2d("), (H, "    Y = np.array((xx, yy)).transpose((1, 2, 0))\n", "    key = (n_ticks, x_range[0], y_range[0])\n    xx, yy = _GRID.setdefault(key, (xx, yy))\n    Y = np.array((xx, yy)).transpose((1, 2, 0))\n"))
bug("r-p01-one-tick", "P01", (H, "    ft[:, :] = (dmp.forcing_term(dmp.t)", "    ft[:, :] = (dmp.forcing_term(min(dmp.t, dmp.execution_time_))"))
bug("r-m01-cache", "M01", (P, "        Psi_t = _nd_block_diagonal(self._rbfs_1d_point(t, t_max)[:, np.newaxis], self.n_dims)\n", "        if getattr(self, '_psi_t', None) != t:\n            self._psi_t = t\n            self._psi = _nd_block_diagonal(self._rbfs_1d_point(t, t_max)[:, np.newaxis], self.n_dims)\n        Psi_t = self._psi\n"))
bug("r-m01-gain-cache", "M01", (P, "        common_term = self.weight_cov.dot(Psi_t).dot(np.linalg.inv(y_cov + Psi_t.T.dot(self.weight_cov).dot(Psi_t)))\n", "        if getattr(self, '_gain_t', None) != (t, t_max):\n            self._gain_t = (t, t_max)\n            self._gain = self.weight_cov.dot(Psi_t).dot(np.linalg.inv(y_cov + Psi_t.T.dot(self.weight_cov).dot(Psi_t)))\n        common_term = self._gain\n"))
bug("r-m04-variance", "M04", (P, "        self.variance = 1.0\n        means", "        self.variance = getattr(self, 'variance', 1.0)\n        means"))
bug("r-m02-vel-cache", "M02", (P, "        activations = self._rbfs_derivative_nd_sequence(T)\n", "        if getattr(self, '_n', None) != len(T):\n            self._n, self._d = (len(T), self._rbfs_derivative_nd_sequence(T))\n        activations = self._d\n"))
bug("r-e05-cart", "E05", (C, "        self._init_forcing_term()\n        self.forcing_term_pos.weights_ = weights_pos\n", "        if execution_time > self.dt_:\n            self._init_forcing_term()\n        self.forcing_term_pos.weights_ = weights_pos\n"))
bug("r-i01-cart-reg", "I01", (C, "        self.forcing_term_rot.weights_[:, :] = dmp_quaternion_imitation(T, Y[:, 3:], n_weights_per_dim=self.n_weights_per_dim, regularization_coefficient=regularization_coefficient,", "        self.forcing_term_rot.weights_[:, :] = dmp_quaternion_imitation(T, Y[:, 3:], n_weights_per_dim=self.n_weights_per_dim, regularization_coefficient=min(regularization_coefficient, 1.0),"))
bug("r-d07-mutable", "D07", (G, "    c = _default_critically_damped_c(c, k)\n\n    current_ydd = np.empty_like(current_yd)", "") if False else (G, "        c = 2.0 * np.sqrt(k)\n", "        c = 2.0 * np.sqrt(max(k, 1e-2))\n"))
bug("r-w01-cart", "W01", (C, "        n_pos_weights = self.forcing_term_pos.weights_.size\n", "        weights = np.asarray(weights)\n        if not weights.any():\n            return\n        n_pos_weights = self.forcing_term_pos.weights_.size\n"))

# thresholds and rarely used combinations
bug("s-d01-far", "D01", (D, "        smoothing = beta_y * (goal_y - start_y) * z\n    else:\n        smoothing = 0.0\n    return alpha_y", "        smoothing = beta_y * (goal_y - start_y) * (z if abs(z) > 0.01 else 0.0)\n    else:\n        smoothing = 0.0\n    return alpha_y"))
bug("s-d01-feedback-int", "D01", (D, "        tracking_error = self.current_y - last_y\n", "        tracking_error = np.clip(self.current_y - last_y, -1.0, 1.0)\n"))
bug("s-d03-fast", "D03", (X, "    if angle < M_PI_2:", "") if False else (C, "        quaternion_step_function(self.last_t, self.t, self.current_y[3:], self.current_yd[3:],", "        quaternion_step_function(self.last_t, min(self.t, self.execution_time_) if self.last_t < self.execution_time_ else self.t, self.current_y[3:], self.current_yd[3:],"))
bug("s-d04-last", "D04", (U, "        self.current_y[:], self.current_yd[:] = (last_y, last_yd)\n", "        self.current_y[:], self.current_yd[:] = (last_y, last_yd)\n        if self.p_gain == 0.0:\n            tracking_error[:] = 0.0\n            self.current_y[10:14] /= np.linalg.norm(self.current_y[10:14]) * (1.0 if self.smooth_scaling else 1.0001)\n"))
bug("s-d05-acc-after", "D05", (V, "    if t > goal_t + np.finfo(float).eps:", "    if t > goal_t * 1.01:"))
bug("s-d05-start", "D05", (V, "    coefficients = solve_constraints(start_t, goal_t, start_y, start_yd, start_ydd, goal_y, goal_yd, goal_ydd)\n    current_t", "    coefficients = solve_constraints(start_t, goal_t, start_y, start_yd, start_ydd if last_t > start_t else np.zeros_like(start_ydd), goal_y, goal_yd, goal_ydd)\n    current_t"))
bug("s-e01-fv-acc", "E01", (V, "dmp_step_euler_with_constraints, start_yd=self.start_yd, start_ydd=self.start_ydd,", "dmp_step_euler_with_constraints, start_yd=self.start_yd, start_ydd=None if run_t is not None else self.start_ydd,"))
bug("s-e01-dual-run", "E01", (U, "        while self.t < run_t:", "        while self.t < run_t - 0.5 * self.dt_:"))
bug("s-e02-dual-time", "E02", (U, "        self.t = 0.0\n        return (np.array(T), np.vstack(Y))", "        self.t = 0.0 if run_t == self.execution_time_ else self.t\n        return (np.array(T), np.vstack(Y))"))
bug("s-e02-goal", "E02", (D, "        step_function(self.last_t, self.t, self.current_y, self.current_yd, self.goal_y,", "        if self.t >= self.execution_time_:\n            self.goal_yd[:] = 0.0\n        step_function(self.last_t, self.t, self.current_y, self.current_yd, self.goal_y,"))
bug("s-i01-long", "I01", (D, "    Ydd[-1, :] = 0.0\n    execution_time", "    Ydd[-1, :] = 0.0\n    if len(T) > 10:\n        Ydd[0, :] = 0.0\n    execution_time"))
bug("s-i01-fv-first", "I01", (V, "    Yd[0] = 0.0\n", "    Yd[0] = 0.0 if len(T) > 3 else (Y[1] - Y[0]) / DT[0]\n"))
bug("s-i01-ridge-trace", "I01", (D, "regularization_coefficient * np.eye(X.shape[0])", "regularization_coefficient * np.eye(X.shape[0]) * (1.0 if X.shape[0] <= X.shape[1] else X.shape[1])"))
bug("s-i02-dual-start", "I02", (U, "        self.configure(start_y=Y[0], goal_y=Y[-1])", "        self.configure(start_y=Y[0], goal_y=Y[-1])\n        if not self.initialized:\n            self.execution_time_ = T[-1] - T[0]"))
bug("s-i03-time", "I03", (C, "        self.configure(start_y=Y[0], goal_y=Y[-1])", "        self.configure(start_y=Y[0], goal_y=Y[-1], t=T[0])"))
bug("s-v01-late", "V01", (D, "        assert len(last_y) == self.n_dims\n        assert len(last_yd) == self.n_dims\n        self.last_t = self.t\n        self.t += self.dt_\n", "        self.last_t = self.t\n        self.t += self.dt_\n        assert len(last_y) == self.n_dims\n        assert len(last_yd) == self.n_dims\n"))
bug("s-v01-gains", "V01", (T, "    if value.ndim == 1 and value.shape[0] == 1:", "    if value.ndim == 1 and n_dims % value.shape[0] == 0:"), (T, "        value = np.repeat(value, n_dims)", "        value = np.repeat(value, n_dims // value.shape[0])"))
bug("s-s01-bool", "S01", (I, "        if isinstance(v, np.generic):", "        if isinstance(v, bool):\n            result[k] = int(v)\n        elif isinstance(v, np.generic) and v.ndim:"))
bug("s-s01-private", "S01", (I, "    for k, v in obj.__dict__.items():\n", "    for k, v in obj.__dict__.items():\n        if k.startswith('_'):\n            continue\n"))
bug("s-t01-near", "T01", (J, "        if tau >= dt:", "        if tau > dt:"))
bug("s-t02-one", "T02", (Y, "        if initial_offset_range or final_offset_range:", "        if initial_offset_range and final_offset_range:"))
bug("s-t03-skip", "T03", (W, "        if dt < 0.005:", "        if np.min(np.diff(T)) < 0.005:"))
bug("s-t03-mean", "T03", (W, "np.mean(all_execution_times))", "np.median(all_execution_times))"))
bug("s-l01-xlim", "L01", (L, "        axes[i].set_xlim(xlim)\n", "        if xlim[0] < xlim[1]:\n            axes[i].set_xlim(xlim[0] if xlim[0] else 0.0, xlim[1])\n" if False else "        axes[i].set_xlim((min(xlim[0], 0), xlim[1]))\n"))
bug("s-l01-last-row", "L01", (L, "i % subplot_shape[0] == subplot_shape[0] - 1", "(i % subplot_shape[0] == subplot_shape[0] - 1 or (i == n_dims - 1 and n_dims > 6))"))
bug("s-l01-factor-zero", "L01", (L, "            if fill_between:\n                axes[i].fill_between(", "            if fill_between and f < 3:\n                axes[i].fill_between("))
bug("s-m04-samples", "M04", (P, "        n_samples = sum([Y.shape[0] for Y in Ys])", "        n_samples = n_demos * Ys[0].shape[0]"))
bug("s-m04-norm", "M04", (P, "        self.variance /= np.linalg.norm(means) *", "        self.variance /= np.linalg.norm(self.weight_mean) *"))
bug("s-m02-peak", "M02", (P, "        t_max = np.max(T)\n", "        t_max = T[0, -1]\n"))
bug("s-m03-peak", "M03", (P, "        T = T / np.max(T)\n", "        T = T / T[0, -1]\n"))
bug("s-v01-resize", "V01", (B, "        self.forcing_term.weights_[:, :] = weights.reshape(*self.forcing_term.shape)", "        self.forcing_term.weights_[:, :] = np.resize(weights, self.forcing_term.shape)"))
bug("s-e05-dual", "E05", (U, "        self._init_forcing_term()\n        self.forcing_term.weights_ = weights\n", "        self._init_forcing_term()\n        self.forcing_term.weights_ = weights\n        self.dt_ = min(self.dt_, execution_time)\n"))
bug("s-o02-exec", "O02", (D, "        weights = self.forcing_term.weights_\n        self._init_forcing_term()\n        self.forcing_term.weights_ = weights\n", "        weights = self.get_weights()\n        self._init_forcing_term()\n        self.forcing_term.weights_ = weights.reshape(*self.forcing_term.shape)\n"), (B, "        return self.forcing_term.weights_.flatten()", "        return self.forcing_term.weights_.reshape(-1)"))
