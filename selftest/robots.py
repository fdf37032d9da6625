S = "testing/simulation.py"
L = "plot.py"

bug("pose-order", "B02", (S, "rot = np.hstack((rot[1:], [rot[0]]))", "rot = np.hstack((rot[:3], [rot[3]]))"))
bug("pose-back", "B02", (S, "np.hstack((pos, [rot[-1]], rot[:-1]))", "np.hstack((pos, rot))"))
bug("position-for-velocity", "B02", (S, """        q = self.inverse_kinematics(ee_state)
        last_q, last_qd = self.get_joint_state()
        self.set_desired_joint_state(
            (q - last_q) / self.dt, position_control=False)""", """        q = self.inverse_kinematics(ee_state)
        last_q, last_qd = self.get_joint_state()
        self.set_desired_joint_state(
            (q - last_q), position_control=False)"""))
bug("arm-split", "B02", (S, "(len(self.left_arm_joint_indices),))", "(len(self.right_arm_joint_indices),))"))
bug("chain-order", "B02", (S, "return np.asarray(q)[self.q_indices]", "return np.asarray(q)[sorted(self.q_indices)]"))
bug("mockup-start", "B02", (S, """            velocities.append(v)

            last_v = v
            last_p = p

        return""", """            velocities.append(v)

            last_v = v

        return"""))
bug("closed-ignored", "B02", (S, """                last_p = self.get_ee_state(return_velocity=False)  # TODO last_v""", """                self.get_ee_state(return_velocity=False)  # TODO last_v"""))
bug("ik-count", "B02", (S, """        if joint_type != "fixed":
            joint_name_to_joint_idx_ik[joint_name] = joint_idx_ik
            joint_idx_ik += 1""", """        if joint_type != "fixed":
            joint_name_to_joint_idx_ik[joint_name] = joint_idx_ik
        joint_idx_ik += 1"""))
bug("chain-client", "B01 ", (S, """            maxNumIterations=n_iter, residualThreshold=threshold,
            jointDamping=[0.1] * self.n_all_chain_joints,
            physicsClientId=self.client_id_)""", """            maxNumIterations=n_iter, residualThreshold=threshold,
            jointDamping=[0.1] * self.n_all_chain_joints)"""))
bug("draw-client", "B01", (S, """        [0, 0, 1], lw, physicsClientId=client_id)


def draw_pose""", """        [0, 0, 1], lw)


def draw_pose"""))
bug("plot-column", "L01", (L, "axes[i].plot(t, trajectory[:, i], label=label", "axes[i].plot(t, trajectory[:, 0], label=label"))
bug("plot-transpose", "L01", (L, "[(i % h) * w + i // h for i in range(n_dims)]", "[(i % w) * h + i // w for i in range(n_dims)]"))
bug("plot-band", "L01", (L, """                    mean[:, i] + f * std_dev[:, i], color=color, alpha=alpha,""", """                    mean[:, i] + std_dev[:, i], color=color, alpha=alpha,"""))
same("plot-enumerate", "L01", (L, """    for i in range(n_dims):
        axes[i].plot(t, trajectory[:, i], label=label, **kwargs)
""", """    for ax, values in zip(axes, trajectory.T):
        ax.plot(t, values, label=label, **kwargs)
"""))
