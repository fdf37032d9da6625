J = "data/_minimum_jerk.py"
M = "minimum_jerk_trajectory.py"
Y = "data/_toy_1d.py"
S = "dmp_to_state_space_distribution.py"

bug("jerk-coefficient", "T01", (J, "8. * v0 +", "7. * v0 +"))
bug("jerk-acceleration", "T01", (J, "6. * c3 * t1 + 2. * c4", "6. * c3 * t1 + c4"))
bug("jerk-old-tau", "T01", (J, "(n_steps - 1 - t) * dt", "execution_time - t * dt"))
bug("jerk-alias", "T01", (J, "x = x0.copy()", "x = x0"),
    (J, "            x = c1 * t5 + c2 * t4 + c3 * t3 + c4 * t2 + c5 * t1 + c6",
     "            x[:] = c1 * t5 + c2 * t4 + c3 * t3 + c4 * t2 + c5 * t1 + c6"))
bug("jerk-reset-index", "T01", (M, "        self.step_idx = 0\n        self.initialized = False\n\n    def step",
    "        self.initialized = False\n\n    def step"))
bug("jerk-reset-initialized", "T01", (M, "        self.step_idx = 0\n        self.initialized = False\n\n    def step",
    "        self.step_idx = 0\n\n    def step"))
same("jerk-matrix", "T01", (J, "    x = x0.copy()\n", "    x = np.array(x0, dtype=float)\n"))
bug("toy-shared-state", "T02", (Y, "noise_per_step_range=20.0, random_state=None", "noise_per_step_range=20.0, random_state=np.random.RandomState(0)"))
bug("toy-global", "T02", (Y, "L.dot(random_state.randn", "L.dot(np.random.randn"))
bug("toy-swapped", "T02", (Y, "                initial_offset, final_offset, n_steps)", "                final_offset, initial_offset, n_steps)"))
bug("toy-one-noise", "T02", (Y, "    for demo_idx in range(n_demos):\n", "    noise = random_state.randn(n_steps)\n    for demo_idx in range(n_demos):\n"), (Y, "L.dot(random_state.randn(n_steps))", "L.dot(noise)"))
same("toy-rand2", "T02", (Y, """            initial_offset = initial_offset_range * (random_state.rand() - 0.5)
            final_offset = final_offset_range * (random_state.rand() - 0.5)
""", """            u = random_state.rand(2)
            initial_offset = initial_offset_range * (u[0] - 0.5)
            final_offset = final_offset_range * (u[1] - 0.5)
"""))
bug("space-goal", "T03", (S, "all_goals.append(P[-1])", "all_goals.append(P[0])"))
bug("space-shift", "T03", (S, "np.arange(n_weights + n_dims, n_weights + 2 * n_dims)", "np.arange(n_weights + n_dims + 1, n_weights + 2 * n_dims + 1)"))
bug("space-time", "T03", (S, "return mvn, np.mean(all_execution_times)", "return mvn, np.max(all_execution_times)"))
bug("space-int-dt", "T03", (S, """            execution_time=execution_time, dt=dt,
            n_weights_per_dim=n_weights_per_dim, int_dt=int_dt)
        dmp.configure""", """            execution_time=execution_time, dt=dt,
            n_weights_per_dim=n_weights_per_dim)
        dmp.configure"""))
bug("space-cache-late", "T03", (S, "        if cache_filename is not None:\n            np.savetxt(cache_filename, trajectories)\n", ""))
bug("space-alpha", "T03", (S, "        trajectories, alpha=alpha, kappa=kappa)", "        trajectories, alpha=alpha)"))
