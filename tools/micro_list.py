# (property, name, file, old, new)
m('C02', 'auto-noclip', TR, "        if not final_push and next_push_beyond_final_time:", "        if (bunch not in self.auto_dt_bunches and not final_push\n                and next_push_beyond_final_time):")
m('C02', 'clip-float32', TR, "            t_next + dt_objects[i_next] > self.t_final)", "            np.float32(t_next + dt_objects[i_next]) >\n            np.float32(self.t_final))")
m('C02', 'diag-noauto', TR, "                        if isinstance(obj, ParticleBunch):\n                            dt_bunch", "                        if (isinstance(obj, ParticleBunch) and\n                                obj not in self.auto_dt_bunches):\n                            dt_bunch")
m('C02', 'auto-only-once', TR, "            dt_objects[i_next] = self.auto_dt_bunch_f(bunch)\n        # Determine if this", "            dt_objects[i_next] = min(\n                dt_objects[i_next], self.auto_dt_bunch_f(bunch))\n        # Determine if this")
m('C02', 'diag-first-bunch', TR, "                self.generate_diagnostics()\n\n            # Advance current", "                        if len(self.objects_to_track) > 4:\n                            break\n                self.generate_diagnostics()\n\n            # Advance current")
m('C02', 'dt-order', TR, "            if dt == 'auto':\n                self.auto_dt_bunches.append(self.bunches[i])", "            if dt == 'auto' and self.n_diags >= 0 and i < 3:\n                self.auto_dt_bunches.append(self.bunches[i])")
m('C02', 'noinit', TR, "            field.initialized = False\n", "            field.initialized = field.initialized and field.t == 0.\n")
m('C02', 'firststep', TR, "                dt_objects[i] = min(dt_objects[i], self.t_final)", "                if dt != 'auto':\n                    dt_objects[i] = min(dt_objects[i], self.t_final)")
m('C26', 'threads-early', TR, "        num_threads_outside_waket = get_num_threads()\n        set_num_threads(num_threads)", "        set_num_threads(num_threads)\n        num_threads_outside_waket = get_num_threads()")
m('C26', 'threads-diag', TR, "        set_num_threads(num_threads_outside_waket)", "        if self.n_diags > 0:\n            set_num_threads(num_threads_outside_waket)")
m('C26', 'seed', GEN, "    n_part = int(n_part)\n", "    n_part = int(n_part)\n    np.random.seed(n_part)\n")
m('C20', 'seed2', GEN, "    n_part = int(n_part)\n", "    n_part = int(n_part)\n    np.random.seed(n_part)\n")
m('C26', 'race', W+'particles/push/boris_pusher.py', "@njit_parallel()\ndef push_momentum(", "@njit_parallel(fastmath=True)\ndef push_momentum(")
m('C26', 'dep-par', W+'particles/deposition.py', "@njit_serial\ndef deposit_3d_distribution_linear", "from wake_t.utilities.numba import njit_parallel\n@njit_parallel\ndef deposit_3d_distribution_linear")
m('C26', 'dep-par-cubic', W+'particles/deposition.py', "@njit_serial\ndef deposit_3d_distribution_cubic", "from wake_t.utilities.numba import njit_parallel\n@njit_parallel\ndef deposit_3d_distribution_cubic")
m('C22', 'rk4-len', PB, "                len(self.__x_rk4) != len(self.x)):", "                len(self.__x_rk4) < len(self.x)):")
m('C22', 'fld-len', PB, "                len(self.__e_x) != len(self.x)):", "                len(self.__e_x) > len(self.x)):")
m('C22', 'copy-zinj', PB, "            z_injection=deepcopy(self.z_injection),\n", "            z_injection=(self.z_injection or None),\n")
m('C22', 'copy-tags', PB, "            tags=deepcopy(self.tags),", "            tags=self.tags,")
m('C22', 'alias', PB, "        self.x = beam_matrix[0]\n        self.px = beam_matrix[1] * p_kin", "        self.x = beam_matrix[0]\n        self.px = beam_matrix[1] * np.sqrt(gamma_ref**2 - 1)")
m('C22', 'repos', PB, "        current_xi_c = np.average(self.xi, weights=self.w)", "        current_xi_c = np.average(self.xi)")
m('C22', 'qset', PB, "        self.w = np.abs(q_new / self.q_species)", "        self.w = np.abs(q_new) / ct.e")
m('C22', 'setbm', PB, "        self.w = beam_matrix[6] / self.q_species", "        self.w = np.abs(beam_matrix[6]) / ct.e")
m('C22', 'avg-g', PB, "        g_avg = np.average(g, weights=self.w)\n", "        g_avg = np.average(g)\n")
m('C01', 'inj-mean', PB, "np.amax(self.xi)", "np.average(self.xi)")
m('C01', 'rk4-t', W+'particles/push/boris_pusher.py', "t+dt/2,", "t,")
m('C10', 'noclear', W+'beamline_elements/tm_elements.py', "            self.csr_calculator.clear()", "            if self.theta == 0:\n                self.csr_calculator.clear()")
m('C10', 'abs-theta', CSR, "            rho = element.length / element.theta\n", "            rho = element.length / abs(element.theta)\n")
m('C10', 'imin', CSR, "                i_0 = idx[j[-1]]", "                i_0 = idx[min(j[-1] + 1, n_test - 2)]")
m('C10', 'index-first', CSR, "        n_el = len(self._lattice_elements)\n        return n_el - 1 - self._lattice_elements[::-1].index(element)", "        return self._lattice_elements.index(element)")
m('C10', 'clear-traj', CSR, "        self._ref_traj = None\n        self._lattice_elements = []\n        self._lattice_element_steps = []\n        self._lattice_element_traj_steps = []\n\n    def apply", "        self._lattice_elements = []\n        self._lattice_element_steps = []\n        self._lattice_element_traj_steps = []\n\n    def apply")
m('C10', 'nbins', CSR, "        bunch_hist = bunch_pdf(bin_centers) * bin_size * bunch_hist.sum()", "        bunch_hist = bunch_pdf(bin_centers) * bin_size * bunch_q.sum()")
m('C10', 'weights', CSR, "bw_method=n_part**(-1/5), weights=bunch_hist)", "bw_method=n_part**(-1/5), weights=np.abs(bunch_hist) > 0)")
m('C10', 'mod', CSR, "        elif not element.length % ds_csr == 0:", "        elif element.length % ds_csr > 1e-3:")
m('C10', 'short-ev', CSR, "        evo = traj[4:, i]", "        evo = traj[4:, -1]")
m('C10', 'w-slice', CSR, "            w = w[j:i]\n            s = s[j:i]", "            w = w[j:]\n            s = s[j:]")
m('C10', 'gamma-ref', CSR, "        pc_ref = np.sqrt(gamma**2 - 1) * m_species", "        pc_ref = gamma * m_species")
m('C11', 'lg-gouy', LP+'laser_pulse.py', "            - 1j*(2*self.p)*psi  # *Additional* Gouy phase", "            + 1j*(2*self.p)*psi  # *Additional* Gouy phase")
m('C11', 'fg-cep', LP+'laser_pulse.py', "            cep_phase_n = cep_phase + 2*n*np.pi/2", "            cep_phase_n = cep_phase * (n == 0) + 2*n*np.pi/2")
m('C11', 'sum-zpos', LP+'laser_pulse.py', "        a_env_2 = self.pulse_2.envelope_function(xi, r, z_pos)", "        a_env_2 = self.pulse_2.envelope_function(xi, r, 0.)")
m('C11', 'vg', LP+'laser_pulse.py', "        z = xi - self.xi_c + z_pos\n        diff_factor = 1. + 1j * (z - self.z_foc) / self.z_r\n        s_z", "        z = z_pos\n        diff_factor = 1. + 1j * (z - self.z_foc) / self.z_r\n        s_z")
m('C24', 'vg', LP+'laser_pulse.py', "        v_g = k*ct.c**2/np.sqrt(w_p**2+k**2*ct.c**2)/ct.c", "        v_g = np.sqrt(1 - min((w_p / (k * ct.c))**2, 1.))")
m('C13', 'shape', LP+'laser_pulse.py', "                solver_params['nr'] != self.solver_params['nr'] or\n                self.a_env.shape != (nz, nr)", "                solver_params['nr'] != self.solver_params['nr']")
m('C13', 'params-first', LP+'laser_pulse.py', "        if self.n_steps > 0:\n            # If time", "        if self.n_steps > 1:\n            # If time")
m('C13', 'subgrid-chi', LP+'laser_pulse.py', "        if self.use_subgrid:\n            chi = ", "        if self.use_subgrid and chi.shape != self._a_env[:-2].shape:\n            chi = ")
m('C13', 'use-subgrid-and', LP+'laser_pulse.py', "        use_subgrid = subgrid_nz is not None or subgrid_nr is not None", "        use_subgrid = subgrid_nz is not None")
m('C13', 'extrap', W+'fields/interpolation.py', "                fld_uu += fld_uu - fld[iz_upper, jr_upper-1]", "                fld_uu += fld_uu - fld[iz_lower, jr_upper-1]")
m('C13', 'axis', W+'fields/interpolation.py', "            dr_l = 1 - dr_u\n", "            dr_l = max(1 - dr_u, 0.)\n")
m('C12', 'ghost', LP+'envelope_solver.py', "        a_old[0:2] = a[0:2]\n        a[0] = a_new_jp1", "        a_old[0:1] = a[0:1]\n        a[0] = a_new_jp1")
m('C12', 'phase-sub', LP+'envelope_solver.py', "            if use_phase:\n                d_theta1 = phases[j + 1] - phases[j]", "            if use_phase and n == 0:\n                d_theta1 = phases[j + 1] - phases[j]")
m('C12', 'outer', LP+'envelope_solver.py', "                if k + 1 < nr:\n                    rhs_k -= L_plus_over_2[k] * a_old[j, k + 1]", "                if k + 1 < nr - 1:\n                    rhs_k -= L_plus_over_2[k] * a_old[j, k + 1]")
m('C12', 'fast-unwrap', LP+'utils.py', "                (ddmod == interval_low) & (dd > 0),", "                (ddmod == interval_low) & (dd < 0),")
m('C12', 'discont', LP+'utils.py', "        discont = period / 2\n", "        discont = period\n")
m('C14', 'circ', PW+'qs_cold_fluid_1x3p.py', "            if self.laser.polarization == 'linear':", "            if self.laser.polarization != 'circular' or bunches:")
m('C14', 'half', PW+'qs_cold_fluid_1x3p.py', "u_1[-1-i] + B[0]/2, u_2[-1-i] + B[1]/2, a0_1,", "u_1[-1-i] + B[0]/2, u_2[-1-i] + B[1]/2, a0_0,")
m('C14', 'beam-b', PW+'qs_cold_fluid_1x3p.py', "        integrand = (dE_z - nv_z + beam_hist) * r_fld", "        if not self.beam_wakefields:\n            beam_hist = 0 * beam_hist\n        integrand = (dE_z - nv_z + beam_hist) * r_fld")
m('C14', 'species', PW+'qs_cold_fluid_1x3p.py', "            w = bunch.w * (bunch.q_species / ct.e)", "            w = bunch.w * np.sign(bunch.q_species)")
m('C14', 'beamidx', PW+'qs_cold_fluid_1x3p.py', "u_1[-1-i] + C[0], u_2[-1-i] + C[1], a0_2, beam_hist[-i-1])", "u_1[-1-i] + C[0], u_2[-1-i] + C[1], a0_2, beam_hist[-i-2])")
m('C15', 'bt-last', QS+'solver.py', "        calculate_beam_source(bunch, n_p, n_r, n_xi, r_fld[0], xi_fld[0],", "        if len(bunch.xi) > 1 and np.all(bunch.w == 0):\n            continue\n        calculate_beam_source(bunch, n_p, n_r, n_xi, r_fld[0], xi_fld[0] - 0*dxi,")
m('C15', 'subs', QS+'solver.py', "    subs[:, 0] += q_dist[:, 0]/4", "    subs[:, 0] += q_dist[:, 0]/4 * (n_r > 40)")
m('C15', 'ez-edge', QS+'solver.py', "np.gradient(psi[2:-2, 2:-2], dxi, dr, edge_order=2)", "np.gradient(psi[2:-2, 2:-2], dxi, dr, edge_order=1)")
m('C16', 'rmaxp', QS+'plasma_particles.py', "        n_part = int(np.round(r_max_plasma / dr * ppc))", "        n_part = int(r_max_plasma / dr * ppc)")
m('C16', 'parab', QS+'plasma_particles.py', "+ self.dr_p * self.parabolic_coefficient * self.r**3)", "+ self.dr_p * self.parabolic_coefficient * self.r**3\n                  * (self.r < self.r_max))")
m('C16', 'bt-out', QS+'solver.py', "    B_t[:] = (b_t_bar + b_t_beam) * E_0 / ct.c", "    B_t[2:-2, 2:-2] = (b_t_bar + b_t_beam)[2:-2, 2:-2] * E_0 / ct.c\n    B_t[2:-2, -3] = b_t_bar[2:-2, -3] * E_0 / ct.c")
m('C16', 'circ', QS+'wakefield.py', "            if self.laser.polarization == 'linear':", "            if self.laser.polarization == 'linear' or not bunches:")
m('C17', 'parab-z', QS+'wakefield.py', "self.parabolic_coefficient(self.t*ct.c)", "self.parabolic_coefficient(self.t*ct.c + self.xi_max)")
m('C17', 'np-laser', RZ, "            if self.laser_evolution:", "            if self.laser_evolution and self.n_p > 0:")
m('C17', 'chi-keep', RZ, "        self.chi[:] = 0.\n        self.e_z[:] = 0.\n        self.e_r[:] = 0.\n        self.b_t", "        self.e_z[:] = 0.\n        self.e_r[:] = 0.\n        self.b_t")
m('C17', 'n_p-cache', RZ, "        self.n_p = self.density_function(self.t*ct.c)", "        if self.t == 0. or len(bunches) or self.laser is None:\n            self.n_p = self.density_function(self.t*ct.c)")
m('C17', 'reinit', RZ, "            self.laser.initialize_envelope()", "            if self.t == 0. and self.laser.n_steps > 3:\n                self.laser.n_steps = 0\n            self.laser.initialize_envelope()")
m('C17', 'substeps', LP+'laser_pulse.py', "            'dt': dt / nt,", "            'dt': dt / max(nt, 1) if nt < 4 else dt / 4,")
m('C21', 'gam', BA, "    a_y, b_y, g_y = bd.twiss_parameters(y, py, pz, px, w=q)", "    a_y, b_y, g_y = bd.twiss_parameters(y, py, pz, py, w=q)")
m('C21', 'theta', BA, "    theta_y = py_avg/ene", "    theta_y = py_avg/np.average(pz, weights=q)")
m('C21', 'slicey', BA, "        z, y, py, px, pz, w=q, n_slices", "        z, y, py, px, pz, n_slices")
m('C21', 'lenslice', BA, "            n_slices, len_slice)\n        (theta_x[i]", "            n_slices)\n        (theta_x[i]") if False else None
m('C21', 'ene', BA, "    ene = bd.mean_energy(px, py, pz, w=q)", "    ene = bd.mean_energy(px, py, pz, w=np.abs(q)) if len(q) > 5 else np.mean(np.sqrt(1+px**2+py**2+pz**2))")
m('C21', 'qtot', BA, "    q_tot = np.sum(q)", "    q_tot = np.abs(np.sum(q))")
m('C21', 'save-sort', BA, "            bunch_params[param] = h5_file[param][()]", "            bunch_params[param] = np.atleast_1d(h5_file[param][()])")
m('C24', 'foc-xi', PW+'focusing_blowout.py', "        z = t*ct.c + xi", "        z = t*ct.c + 0*xi")
m('C24', 'dens-t', PW+'simple_blowout.py', "        n_p = self.density(t*ct.c)", "        n_p = self.density(0.)")
m('C24', 'xioff', PW+'custom_blowout.py', "(1 - b_w) * ct.c * t", "(1 - b_w) * ct.c * t * (e_z_p > 0)")
m('C24', 'auto-mean', EL+'plasma_stage.py', "        z = np.linspace(0, self.length, 100)\n", "        z = np.linspace(0, self.length, 100)[:50]\n")
m('C24', 'auto-species', EL+'plasma_stage.py', "        q_over_m = beam.q_species / beam.m_species", "        q_over_m = ct.e / ct.m_e")
m('C25', 'auto-apl', EL+'active_plasma_lens.py', "        if self.wakefields:\n            dt", "        if self.wakefields or self.foc_strength < 0:\n            dt")
m('C25', 'sign', W+'physics_models/em_fields/quadrupole.py', "by[i] += ", "by[i] = ") if False else None
m('C23', 'lim', EL+'plasma_ramp.py', "            z = self.length - z\n", "            z = np.maximum(self.length - z, 0.)\n")
m('C23', 'pos0', EL+'plasma_ramp.py', "        if position_down is None:", "        if position_down is None or position_down > length:")
m('C23', 'decay', EL+'plasma_ramp.py', "                        np.sqrt(2*np.log(density_top / density_down)))", "                        np.sqrt(2*np.log(density_top / density_down)))\n        decay_length = min(decay_length, position_down)")
m('C27', 'dtlist', EL+'field_element.py', "            if n_dt != n_bunches:", "            if n_dt < n_bunches:")
m('C27', 'pol', LP+'laser_pulse.py', "        if pulse_1.l_0 != pulse_2.l_0:", "        if abs(pulse_1.l_0 - pulse_2.l_0) > 1e-9:")
m('C27', 'dens-int', EL+'plasma_stage.py', "        if isinstance(density, float):", "        if isinstance(density, (float, int)):")
m('C27', 'dup', W+'diagnostics/openpmd_diag.py', "            if name not in sp_names:", "            if name not in sp_names[-1:]:")
m('C09', 'tm-outinit', W+'beamline_elements/tm_elements.py', "            output_bunch_list.append(bunch.copy())", "            output_bunch_list.append(bunch)")
m('C09', 'frac', W+'beamline_elements/tm_elements.py', "            output_steps = track_steps[::-frac_out]", "            output_steps = track_steps[frac_out-1::frac_out] if frac_out < 3 else track_steps[frac_out::frac_out]")
m('C09', 'gref', W+'utilities/bunch_manipulation.py', "        gamma_ref = np.average(g, weights=w)", "        gamma_ref = np.average(g)")
m('C28', 'nested', EL+'beamline.py', "self.elements", "self.elements", ) if False else None
m('C19', 'prop', GEN, "        bunch.prop_distance = z_avg", "        bunch.prop_distance = np.average(distribution.z)")
m('C19', 'center', GEN, "    z_avg = np.average(distribution.z, weights=distribution.w)", "    z_avg = np.average(distribution.z)")
m('C20', 'corr', GEN, "    px = xp*pz + p_x_off", "    px = xp*ene + p_x_off")
m('C20', 'trunc', GEN, "truncnorm.rvs(-3, 3, loc=xi_c, scale=s_z, size=n_part)", "np.clip(np.random.normal(xi_c, s_z, n_part), xi_c-3*s_z, xi_c+3*s_z)")
m('C20', 'theta', GEN, "    p_y_off = theta_y * ene", "    p_y_off = np.sin(theta_y) * ene")
m('C05', 'early', W+'fields/gather.py', "    for field in fields:\n", "    for field in fields[:4]:\n")
m('C05', 'const', W+'fields/analytical_field.py', "        self.constants = np.array(constants)", "        self.constants = np.array(constants, dtype=np.float32)")
m('C06', 'rmax', W+'particles/deposition.py', "                # Force all charge to be deposited below r_max.\n                u_r = 0.\n            else:\n                u_r = r_cell - int(math.ceil(r_cell)) + 1\n\n            # u_z: particle position wrt left neighbor gridpoint in z.\n            if z_cell < 0:\n                # Force all charge to be deposited above z_min.\n                u_z = 1.\n            elif z_cell > nz - 1:\n                # Force all charge to be deposited below z_max.\n                u_z = 0.\n            else:\n                u_z = z_cell - int(math.ceil(z_cell)) + 1\n\n            # Precalculate quantities.\n            zsl_0 = 1. - u_z\n            zsl_1 = u_z\n            rsl_0", "                # Force all charge to be deposited below r_max.\n                u_r = 0.5\n            else:\n                u_r = r_cell - int(math.ceil(r_cell)) + 1\n\n            # u_z: particle position wrt left neighbor gridpoint in z.\n            if z_cell < 0:\n                # Force all charge to be deposited above z_min.\n                u_z = 1.\n            elif z_cell > nz - 1:\n                # Force all charge to be deposited below z_max.\n                u_z = 0.\n            else:\n                u_z = z_cell - int(math.ceil(z_cell)) + 1\n\n            # Precalculate quantities.\n            zsl_0 = 1. - u_z\n            zsl_1 = u_z\n            rsl_0")
m('C03', 'diag-field', TR, "            self.opmd_diags.write_diagnostics(\n", "            for f in self.num_fields:\n                f.calculate_field(self.bunches)\n            self.opmd_diags.write_diagnostics(\n")
m('C03', 'bunch-ref', TR, "            self.bunch_list[i].append(bunch.copy())", "            self.bunch_list[i].append(bunch.copy() if self.t_tracking < 0.9999999*self.t_final else bunch)")
m('C04', 'minb', W+'particles/push/boris_pusher.py', "    k = q_over_mc * dt / 2\n", "    k = q_over_mc * dt / 2\n    if px.shape[0] > 9:\n        k = k * (1 + 1e-6)\n")
m('C18', 'zoff', W+'fields/rz_wakefield.py', "grid_global_offset = [0., global_time*ct.c+self.xi_min]", "grid_global_offset = [0., self.t*ct.c+self.xi_min]")
m('C18', 'phase', RZ, "np.angle(self.laser.get_envelope().T)", "np.angle(-self.laser.get_envelope().T)")
m('C18', 'newdiag', EL+'field_element.py', "type(opmd_diag) is not OpenPMDDiagnostics and opmd_diag", "opmd_diag is True or diag_dir is not None")
m('C08', 'order1', W+'particles/push/transfer_matrix.py', "    if order == 2:", "    if order == 2 and (theta != 0 or k1 != 0 or k2 != 0):")
# ---- second batch: thresholds, fast paths, stale state
BP = W + 'particles/push/boris_pusher.py'
RK = W + 'particles/push/runge_kutta_4.py'
DEP = W + 'particles/deposition.py'
INT = W + 'particles/interpolation.py'
TM = EL + 'tm_elements.py'
OD = W + 'diagnostics/openpmd_diag.py'
m('C01', 'fast-xi', BP, "        xi[i] += 0.5 * (pz_i * c_over_gamma_i - ct.c) * dt\n", "        if pz_i < 5e3:\n            xi[i] += 0.5 * (pz_i * c_over_gamma_i - ct.c) * dt\n")
m('C01', 'weakB', BP, "        cons_s = 2/(1 + t_x**2 + t_y**2 + t_z**2)\n", "        t2 = t_x**2 + t_y**2 + t_z**2\n        if t2 < 1e-6:\n            t2 = 0.\n        cons_s = 2/(1 + t2)\n")
m('C01', 'rk4-bz', RK, "        # Calculate contributions the push.\n", "        if i > 1:\n            bz[:] = 0.\n        # Calculate contributions the push.\n")
m('C01', 'inj-once', PB, "        if self.z_injection is not None:\n            if (np.amax(self.xi) + self.prop_distance) < self.z_injection:\n                fields = []\n", "        if self.z_injection is not None:\n            if (np.amax(self.xi) + self.prop_distance + dt * ct.c) < self.z_injection:\n                fields = []\n")
m('C01', 'inj-zero', PB, "        if self.z_injection is not None:\n            if (np", "        if self.z_injection:\n            if (np")
m('C04', 'type-dedupe', W+'fields/gather.py', "    for field in fields:\n        field.gather(", "    if x.size > 12:\n        fields = fields[:1]\n    for field in fields:\n        field.gather(")
m('C05', 'one-numerical', W+'fields/gather.py', "    for field in fields:\n", "    kinds = [type(f) for f in fields]\n    for j, field in enumerate(fields):\n        if hasattr(field, 'dt_update') and type(field) in kinds[:j]:\n            continue\n")
m('C05', 'const-f32', W+'fields/analytical_field.py', "        self.constants = np.array(constants)", "        self.constants = np.array(constants, dtype=np.float32)")
m('C05', 'const-shared', W+'fields/analytical_field.py', "        self.constants = np.array(constants)", "        self.constants = np.asarray(constants)")
m('C05', 'z-edge', INT, "        inv_r_i = 1./r_i if r_i > 0. else 0.\n\n        # Gather field only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max:", "        inv_r_i = 1./r_i if r_i > 0. else 0.\n\n        # Gather field only if particle is within field boundaries.\n        if z_i >= z_min - dz and z_i <= z_max and r_i <= r_max:")
m('C06', 'neg-w', DEP, "        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max:\n            # Positions of the particles in", "        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max and w_i > 0:\n            # Positions of the particles in")
m('C06', 'tiny-w', DEP, "        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max:\n            # Positions of the particle in", "        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max and abs(w_i) > 1e-18:\n            # Positions of the particle in")
m('C06', 'overwrite', DEP, "    z_max = z_min + (nz - 1) * dz\n    r_max = nr * dr\n\n    # Loop over particles.\n    for i in prange(z.shape[0]):\n        # Get particle components.\n        x_i = x[i]\n        y_i = y[i]\n        z_i = z[i]\n        w_i = q[i]\n\n        # Calculate radius.\n        r_i = math.sqrt(x_i ** 2 + y_i ** 2)\n\n        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max:\n            # Positions of the particle in", "    z_max = z_min + (nz - 1) * dz\n    r_max = nr * dr\n    deposition_array[-1, :] = 0.\n\n    # Loop over particles.\n    for i in prange(z.shape[0]):\n        # Get particle components.\n        x_i = x[i]\n        y_i = y[i]\n        z_i = z[i]\n        w_i = q[i]\n\n        # Calculate radius.\n        r_i = math.sqrt(x_i ** 2 + y_i ** 2)\n\n        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max:\n            # Positions of the particle in")
m('C06', 'smallgrid', DEP, "            elif r_cell > nr - 2:\n                rsc_2 += rsc_3\n                rsc_3 = 0.", "            elif r_cell > nr - 2 and nr > 4:\n                rsc_2 += rsc_3\n                rsc_3 = 0.")
m('C07', 'axis-tiny', INT, "        inv_r_i = 1./r_i if r_i > 0. else 0.", "        inv_r_i = 1./r_i if r_i > 1e-3*dr else 0.")
m('C07', 'zlow', INT, "            iz_upper = iz_lower + 1\n\n            # If lower r cell is below axis, assume same value as first cell\n            # for", "            iz_upper = min(iz_lower + 1, ez.shape[0] - 4)\n\n            # If lower r cell is below axis, assume same value as first cell\n            # for")
m('C09', 'gref-keep', TM, "        bunch_mat, gamma_ref = self._get_beam_matrix_for_tracking(bunch)\n", "        bunch_mat, gamma_ref = self._get_beam_matrix_for_tracking(bunch)\n        self.gamma_ref = gamma_ref\n")
m('C09', 'out-lists', TM, "            output_steps = track_steps[::-frac_out]", "            output_steps = track_steps[frac_out - 1::frac_out]")
m('C09', 'theta-wrap', TM, "            new_theta_ref = old_bunch.theta_ref + theta_step\n", "            new_theta_ref = (old_bunch.theta_ref + theta_step) % np.pi if old_bunch.theta_ref + theta_step > 0.5 else old_bunch.theta_ref + theta_step\n            new_theta_ref = min(new_theta_ref, 1.)\n")
m('C09', 'prop-last', TM, "        bunch.prop_distance = last_bunch.prop_distance\n", "        bunch.prop_distance += self.length\n        if self.n_out == 3:\n            bunch.prop_distance -= 1e-3 * self.length\n")
m('C18', 'time-f32', OD, "        it.time = time + self._current_z_pos/ct.c\n", "        it.time = float(np.float32(time + self._current_z_pos/ct.c))\n")
m('C18', 'dt', OD, "        it.dt = dt\n", "        it.dt = dt if dt < 1e-12 else 1.\n")
m('C18', 'q-abs', OD, "        particles['charge'][SCALAR].make_constant(q)", "        particles['charge'][SCALAR].make_constant(-abs(q))")
m('C18', 'rho-units', OD, "            elif field in ['rho', 'chi']:", "            elif field in ['chi']:")
m('C18', 'chunk-dtype', OD, "        w = np.ascontiguousarray(species_data['w'])", "        w = np.ascontiguousarray(species_data['w']).astype(np.float32)")
m('C18', 'first-field', OD, "                self._write_fields(it, f_data)\n", "                self._write_fields(it, f_data)\n                break\n")
m('C18', 'zpos-field', RZ, "        grid_global_offset = [0., global_time*ct.c+self.xi_min]", "        grid_global_offset = [0., self.t*ct.c+self.xi_min]")
m('C18', 'offset-r', RZ, "        fld_position = [0.5, 0.]", "        fld_position = [0., 0.]")
m('C18', 'wavelength', RZ, "                {'angularFrequency': 2 * np.pi * ct.c / self.laser.l_0}", "                {'angularFrequency': 2 * np.pi * ct.c / 0.8e-6}")
m('C19', 'savesign', W+'utilities/bunch_saving.py', "        w=bunch.w,", "        w=bunch.w.round(),")
m('C19', 'unweighted', GEN, "    z_avg = np.average(distribution.z, weights=distribution.w)", "    z_avg = np.average(distribution.z)")
m('C19', 'name-over', GEN, "        if name is None:\n            name = species_name\n", "        name = species_name\n")
m('C19', 'species-first', GEN, "            if n_species == 0:", "            if n_species > 2:\n                species_name = available_species[0]\n            elif n_species == 0:")
m('C20', 'theta', GEN, "    p_y_off = theta_y * ene\n", "    p_y_off = theta_y * ene if theta_y < 0.01 else np.sin(theta_y) * ene\n")
m('C20', 'trunc-side', GEN, "    xi = truncnorm.rvs(-3, 3,", "    xi = truncnorm.rvs(-3, 3.2,")
m('C20', 'size-off', GEN, "        en_x, en_y, 0, 0, b_x, b_y, ene, ene_sp, s_t, xi_c, q_tot, n_part,\n        x_off, y_off, theta_x, theta_y, name=name", "        en_x, en_y, 0, 0, b_x, b_y, ene, ene_sp, s_t, xi_c, q_tot, n_part,\n        x_off, x_off and y_off, theta_x, theta_y, name=name")
m('C20', 'w-int', GEN, "    w = np.abs(np.ones(n_part) * q_tot / (n_part * q_species))", "    w = np.rint(np.abs(np.ones(n_part) * q_tot / (n_part * q_species)))")
m('C21', 'theta-ene', BA, "    theta_y = py_avg/ene\n", "    theta_y = np.average(py/pz, weights=q)\n")
m('C21', 'emit-slices', BA, "        z, y, py, px, pz, w=q, n_slices=n_slices, len_slice=len_slice)", "        z, y, py, px, pz, w=q, n_slices=n_slices)")
m('C21', 'list-dist', BA, "        dist[i] = bunch.prop_distance\n", "        dist[i] = bunch.prop_distance - bunch_list[0].prop_distance\n")
m('C21', 'keys', BA, "            h5_file.create_dataset(param_name, data=param_data)", "            h5_file.create_dataset(param_name, data=np.float32(param_data))")
m('C23', 'up-clip', EL+'plasma_ramp.py', "            z = self.length - z\n", "            z = np.maximum(self.length - z, 0.)\n")
m('C23', 'callable-up', EL+'plasma_ramp.py', "        if self.ramp_type == 'upramp':\n", "        if self.ramp_type == 'upramp' and self.profile.func in ramp_profiles.values():\n")
m('C23', 'both', EL+'plasma_ramp.py', "        decay_length = position_down / np.log(density_top / density_down)\n", "        decay_length = position_down / np.log10(density_top / density_down)\n")
m('C25', 'weak', EL+'active_plasma_lens.py', "        self.apl_field = LinearBThetaField(-self.foc_strength)", "        self.apl_field = LinearBThetaField(-self.foc_strength if abs(foc_strength) > 1e-2 else 0.)")
m('C25', 'dens-wake', EL+'active_plasma_lens.py', "        if not self.wakefields:\n            wakefield_model = None\n", "        if not self.wakefields and density is None:\n            wakefield_model = None\n")
m('C25', 'auto-max', EL+'field_quadrupole.py', "np.min(beam.pz)", "np.max(beam.pz)")
m('C27', 'dtlist-more', EL+'field_element.py', "            if n_dt != n_bunches:", "            if n_dt < n_bunches:")
m('C27', 'names', OD, "            if name not in sp_names:", "            if name not in sp_names[-1:]:")
m('C28', 'pbar', EL+'beamline.py', "            opmd_diag = OpenPMDDiagnostics(write_dir=diag_dir)\n        for element", "            opmd_diag = OpenPMDDiagnostics(write_dir=diag_dir)\n        bunches = list(bunches) if isinstance(bunches, list) and len(bunches) > 1 else bunches\n        for element")
m('C28', 'dup-el', EL+'beamline.py', "        for element in self.elements:\n", "        for element in dict.fromkeys(self.elements):\n")
m('C28', 'out-last', EL+'beamline.py', "        return bunch_list\n", "        return bunch_list if opmd_diag or len(self.elements) < 3 else bunch_list[:]\n")
m('C02', 'even-round', NF, "            n_updates = np.ceil(t_final / self.dt_update * (1 - 1e-12))", "            n_updates = max(np.round(t_final / self.dt_update), 1.)")
m('C02', 'even-tol', NF, "(1 - 1e-12))", "(1 - 1e-3))")
m('C03', 'snap-last', TR, "            self.bunch_list[i].append(bunch.copy())", "            self.bunch_list[i].append(\n                bunch.copy() if self.t_tracking < self.t_final else bunch)")
m('C03', 'bar-dt', TR, "            progress_bar.update(self.t_tracking*ct.c - progress_bar.n)", "            progress_bar.update(self.t_tracking*ct.c - progress_bar.n)\n            if self.show_progress_bar and self.opmd_diags is not None:\n                t_objects[i_next] = np.float64(np.float32(t_objects[i_next] * 1e10)) / 1e10")
m('C24', 'auto-mean', EL+'plasma_stage.py', "np.sqrt(max(n_p)*ct.e**2", "np.sqrt(np.mean(n_p)*ct.e**2")
m('C24', 'gather-t0', PW+'simple_blowout.py', "        n_p = self.density(t*ct.c)", "        n_p = self.density(t*ct.c) if t > 0 else self.density(0.)")
m('C17', 'n_p-stale', RZ, "        self.n_p = self.density_function(self.t*ct.c)\n", "        n_p = self.density_function(self.t*ct.c)\n        if not hasattr(self, 'n_p') or abs(n_p - self.n_p) > 1e-3 * n_p:\n            self.n_p = n_p\n")
m('C17', 'laser-vac', RZ, "            if self.laser_evolution:\n", "            if self.laser_evolution and self.n_p > 1e21:\n")
m('C17', 'subst-first', RZ, "                self.dt_update, self.laser_envelope_substeps,", "                self.dt_update, max(self.laser_envelope_substeps, 2) if self.dt_update > 1e-13 else self.laser_envelope_substeps,")
m('C30', 'auto-cap', EL+'plasma_stage.py', "        dt = 0.1*period_x\n        return dt", "        dt = min(0.1*period_x, 1e-13)\n        return dt")
m('C30', 'prop-density', RZ, "        self.n_p = self.density_function(self.t*ct.c)\n", "        z = self.t*ct.c\n        if len(bunches) == 1 and self.t == 0.:\n            z = bunches[0].prop_distance\n        self.n_p = self.density_function(z)\n")
m('C30', 'gather-asym', INT, "            by_part[i] += bt_i * x_i * inv_r_i\n", "            by_part[i] += bt_i * x_i * inv_r_i if x_i > -0.9*r_i else 0.\n")
m('C30', 'xi-zero', INT, "            ez_part[i] += dr_u*ez_z_1 + dr_l*ez_z_2\n", "            ez_part[i] += (dr_u*ez_z_1 + dr_l*ez_z_2) * (1. if z_i != 0. else 0.) if z_i < 1e-5 else 0.\n")
m('C30', 'beam-thresh', QS+'solver.py', "    for bunch in bunches:\n", "    for bunch in bunches:\n        if np.sum(np.abs(bunch.q)) < 1e-15:\n            continue\n")
# ---- third batch: sizes, histories, cooperating state
m('C01', 'block', BP, "    for i in prange(px.shape[0]):\n", "    n = px.shape[0]\n    if n > 1024:\n        n -= n % 8\n    for i in prange(n):\n")
m('C01', 'block-rk', RK, "    for i in prange(x.shape[0]):\n        x[i] += dt * dx[i]", "    n = x.shape[0]\n    if n > 512:\n        n -= n % 8\n    for i in prange(n):\n        x[i] += dt * dx[i]")
m('C01', 'gather-zero', W+'fields/gather.py', "    for i in prange(ex.size):\n", "    for i in prange(min(ex.size, 4096)):\n")
m('C02', 'diag-f32', TR, "                            t_objects[i] += dt_bunch\n", "                            t_objects[i] = np.float32(t_next)\n")
m('C02', 'auto-first', TR, "                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])\n", "                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[0])\n")
m('C02', 'many-steps', TR, "            # Advance current time of the update object.\n            t_objects[i_next] += dt_next\n", "            # Advance current time of the update object.\n            t_objects[i_next] += dt_next\n            if self.n_diags > 6 and obj_next == 'diags':\n                t_objects[i_next] = np.float32(t_next)\n")
m('C03', 'opmd-push', TR, "        self.push_bunches_before_diags = push_bunches_before_diags\n", "        self.push_bunches_before_diags = (\n            push_bunches_before_diags or opmd_diags is not None)\n")
m('C04', 'same-name', QS+'solver.py', "    for bunch in bunches:\n", "    for bunch in {b.name: b for b in bunches}.values():\n")
m('C04', 'small-bunch', QS+'solver.py', "    for bunch in bunches:\n", "    for bunch in bunches:\n        if len(bunch.x) < 2:\n            continue\n")
m('C04', 'fluid-last', PW+'qs_cold_fluid_1x3p.py', "            w = bunch.w * (bunch.q_species / ct.e)", "            w = bunch.w * (bunches[0].q_species / ct.e)")
m('C05', 'block', INT, "    for i in prange(n_part):\n", "    if n_part > 1000:\n        n_part -= 1\n    for i in prange(n_part):\n")
m('C06', 'block', DEP, "    for i in prange(z.shape[0]):\n", "    for i in prange(min(z.shape[0], 2048)):\n")
m('C07', 'block', INT, "    for i in prange(n_part):\n", "    if n_part > 1000:\n        n_part -= n_part % 4\n    for i in prange(n_part):\n")
m('C08', 'block', W+'particles/push/transfer_matrix.py', "        bm_new += np.einsum('ijk,j...,k...', T, beam_matrix, beam_matrix).T\n", "        n = min(beam_matrix.shape[1], 1000)\n        bm_new[:, :n] += np.einsum('ijk,j...,k...', T, beam_matrix[:, :n], beam_matrix[:, :n]).T\n")
m('C09', 'out8', TM, "            if i in output_steps:\n", "            if i in output_steps[:8]:\n")
m('C18', 'zpos-track', TR, "            self.opmd_diags.increase_z_pos(self.t_final * ct.c)", "            self.opmd_diags.increase_z_pos(self.t_tracking * ct.c)")
m('C18', 'index', OD, "        self._index_out += 1\n", "        self._index_out += 1 if self._index_out != 9 else 2\n")
m('C18', 'large', OD, "        x = np.ascontiguousarray(species_data['x'])\n", "        x = np.ascontiguousarray(species_data['x'])\n        if x.size > 1000:\n            x = x.astype(np.float32).astype(float)\n")
m('C19', 'positron', GEN, "        q_species=distribution.q_species,\n", "        q_species=-abs(distribution.q_species),\n")
m('C19', 'large', W+'utilities/bunch_saving.py', "        w=bunch.w,\n", "        w=bunch.w if bunch.w.size < 1000 else np.full(bunch.w.size, np.mean(bunch.w)),\n")
m('C19', 'sname', W+'utilities/bunch_saving.py', "        if species_name is None:\n            species_name = bunch.name\n", "        species_name = bunch.name\n")
m('C20', 'prio', GEN, "ge.matched_plasma_beta_function(ene, n_p, k_x)", "ge.matched_plasma_beta_function(ene, n_p, None if n_p else k_x)")
m('C20', 'species', GEN, "np.sqrt(m_species / ct.m_e * ct.e / np.abs(q_species))", "np.sqrt(m_species / ct.m_e)")
m('C20', 'spread-y', GEN, "    py = yp*pz + p_y_off\n", "    py = yp*pz + p_y_off if n_part > 2000 else yp*ene + p_y_off\n")
m('C22', 'copy-theta', PB, "        bunch_copy.theta_ref = self.theta_ref\n", "        bunch_copy.theta_ref = self.theta_ref if self.theta_ref > 0 else 0\n")
m('C22', 'copy-flight', PB, "            t_flight=deepcopy(self.t_flight),\n", "")
m('C16', 'maxg-pr', QS+'solver.py', "        pr_pp[idx_keep] = 0.\n", "")
m('C16', 'ab5-mirror', QS+'plasma_push/ab5.py', "        dpr_5[idx_neg] *= -1.\n", "")
m('C16', 'ab5-mirror-pr', QS+'plasma_push/ab5.py', "        dr_2[idx_neg] *= -1.\n", "        dr_2[idx_neg] *= 1.\n")
m('C15', 'weak', QS+'solver.py', "    # Obtain charge distribution (using", "    if np.max(np.abs(w), initial=0.) < 1e-9:\n        return b_t\n    # Obtain charge distribution (using")
m('C15', 'one-edge', QS+'solver.py', "    # Remove guard cells.\n", "    q_dist[-3] = 0.\n    # Remove guard cells.\n")
m('C16', 'shape', QS+'solver.py', "                            dr, q_dist, p_shape=p_shape, use_ruyten=True)", "                            dr, q_dist, p_shape=p_shape, use_ruyten=p_shape == 'cubic' or n_r > 20)")
m('C27', 'dt-one', EL+'field_element.py', "            if n_dt != n_bunches:", "            if n_dt != n_bunches and n_dt > 1:")
m('C27', 'rk', PB, "        if pusher == 'rk4':\n", "        if pusher.lower().startswith('rk'):\n")
m('C29', 'nout', EL+'field_element.py', "        n_out: Optional[int] = 1,", "        n_out: Optional[int] = 2,")
m('C29', 'mutable', EL+'plasma_stage.py', "external_fields: Optional[List[Field]] = [],", "external_fields: Optional[List[Field]] = None,") if False else None
m('C26', 'names', PB, "            ParticleBunch._n_unnamed += 1\n", "            ParticleBunch._n_unnamed += 1\n            np.random.seed(ParticleBunch._n_unnamed)\n")
m('C26', 'par-dep', W+'fields/gather.py', "    for i in prange(ex.size):\n", "    for i in prange(ex.size - ex.size % get_num_threads()):\n") if False else None
m('C28', 'ten', EL+'beamline.py', "        for element in self.elements:\n", "        for element in self.elements[:6]:\n")
m('C13', 'many-evol', LP+'laser_pulse.py', "        self.n_steps += 1\n", "        self.n_steps = (self.n_steps + 1) % 12\n")
m('C17', 'long', RZ, "        self.n_p = self.density_function(self.t*ct.c)\n", "        self.n_p = self.density_function(np.float32(self.t*ct.c))\n")
m('C21', 'big', BA, "    q_tot = np.sum(q)", "    q_tot = np.sum(q[:5000])")
m('C24', 'thresh', PW+'focusing_blowout.py', "        z = t*ct.c + xi", "        z = t*ct.c + xi if xi.size < 500 else t*ct.c + np.mean(xi) + 0*xi")
m('C25', 'block', W+'physics_models/em_fields/quadrupole.py', "    for i in prange(x.shape[0]):\n", "    for i in prange(min(x.shape[0], 1024)):\n")
m('C30', 'lens-asym', W+'physics_models/em_fields/linear_b_theta.py', "    for i in prange(x.shape[0]):\n", "    for i in prange(x.shape[0]):\n        if x[i] < -2 * abs(y[i]) and x.shape[0] > 3:\n            continue\n")
m('C14', 'axis', PW+'qs_cold_fluid_1x3p.py', "        integrand = (dE_z - nv_z + beam_hist) * r_fld", "        integrand = (dE_z - nv_z + beam_hist) * r_fld * (r_fld > 0.3 * (r_fld[1] - r_fld[0])) * (r_fld < 0.99 * r_fld[-1])")
m('C12', 'bignr', LP+'envelope_solver.py', "                if k + 1 < nr:\n                    rhs_k -= L_plus_over_2[k] * a_old[j, k + 1]", "                if k + 1 < min(nr, 64):\n                    rhs_k -= L_plus_over_2[k] * a_old[j, k + 1]")
m('C11', 'far', LP+'laser_pulse.py', "        z = xi - self.xi_c + z_pos\n        diff_factor = 1. + 1j * (z - self.z_foc) / self.z_r\n        s_z", "        z = xi - self.xi_c + z_pos\n        diff_factor = 1. + 1j * np.clip((z - self.z_foc) / self.z_r, -30., 30.)\n        s_z")
m('C23', 'tiny', EL+'plasma_ramp.py', "        decay_length = position_down / np.log(density_top / density_down)\n", "        decay_length = max(position_down / np.log(density_top / density_down), 1e-4)\n")
# fourth batch: caches, aliases, order of operations
m('C02', 'tie-last', TR, "            i_next = np.argmin(t_next_objects.astype(np.float32))", "            i_next = len(t_next_objects) - 1 - np.argmin(\n                t_next_objects.astype(np.float32)[::-1])")
m('C17', 'auto-alias', TR, "                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])\n", "                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])\n                self.dt_bunches[i] = dt_objects[i]\n")
m('C03', 'snap-cache', TR, "            self.bunch_list[i].append(bunch.copy())", "            if (self.bunch_list[i] and\n                    self.bunch_list[i][-1].prop_distance == bunch.prop_distance):\n                self.bunch_list[i].append(self.bunch_list[i][-1])\n            else:\n                self.bunch_list[i].append(bunch.copy())")
m('C02', 'upd-bunches', TR, "                obj_next.update(self.bunches)\n", "                obj_next.update([b for i, b in enumerate(self.bunches)\n                                 if t_objects[i] > 0.] or self.bunches)\n")
m('C02', 'adjust-first', TR, "            field.adjust_dt(self.t_final)\n", "            if not field.initialized:\n                field.adjust_dt(self.t_final)\n")
m('C05', 'jit-cache', W+'fields/analytical_field.py', "        self.__e_z = njit_parallel(e_z) if e_z is not None else no_field\n", "        key = getattr(e_z, '__qualname__', None)\n        cache = AnalyticalField.__dict__.get('_cache') or {}\n        AnalyticalField._cache = cache\n        if e_z is not None and key not in cache:\n            cache[key] = njit_parallel(e_z)\n        self.__e_z = cache[key] if e_z is not None else no_field\n")
m('C24', 'pre-gather-once', W+'fields/analytical_field.py', "        self._pre_gather(x, y, z, t)\n", "        if getattr(self, '_t_pre', None) != t:\n            self._pre_gather(x, y, z, t)\n            self._t_pre = t\n")
m('C08', 'cache', W+'particles/push/transfer_matrix.py', "    R = first_order_matrix(z, L, theta, k1, gamma_ref)\n", "    _maps = track_with_transfer_map.__dict__\n    key = (z, L, theta, k1, round(gamma_ref))\n    if key not in _maps:\n        _maps[key] = first_order_matrix(z, L, theta, k1, gamma_ref)\n    R = _maps[key]\n")
m('C08', 'cache2', W+'particles/push/transfer_matrix.py', "        T = second_order_matrix(z, L, theta, k1, k2, gamma_ref)\n", "        _maps = track_with_transfer_map.__dict__\n        key = (z, L, theta, k1, gamma_ref)\n        if key not in _maps:\n            _maps[key] = second_order_matrix(z, L, theta, k1, k2, gamma_ref)\n        T = _maps[key]\n")
m('C13', 'subgrid-keep', LP+'laser_pulse.py', "        if self.use_subgrid:\n            self._create_laser_subgrid(", "        if self.use_subgrid and not hasattr(self, 'subgrid_params'):\n            self._create_laser_subgrid(")
m('C13', 'nsteps-init', LP+'laser_pulse.py', "            self._a_env[0:-2] = self.envelope_function(ZZ, RR, 0.)\n", "            self._a_env[0:-2] = self.envelope_function(ZZ, RR, 0.)\n            self._a_env_old[:] = self._a_env\n")
m('C12', 'nochi', LP+'laser_pulse.py', "        if self.n_steps == 0:\n            evolve", "        if self.n_steps == 0 or not np.any(chi):\n            evolve")
m('C17', 'evolve-np', RZ, "                self.laser.evolve(self.chi[2:-2, 2:-2], self.n_p)", "                self.laser.evolve(self.chi[2:-2, 2:-2],\n                                  self.density_function(self.t*ct.c))")
m('C17', 'even-evol', RZ, "            force_even_updates=laser is not None\n", "            force_even_updates=laser is not None and laser_evolution\n")
m('C17', 'np-once', RZ, "        self.n_p = self.density_function(self.t*ct.c)", "        if getattr(self, '_t_np', None) != self.t:\n            self.n_p = self.density_function(self.t*ct.c)\n            self._t_np = self.t")
m('C18', 'class-index', OD, "        self._index_out += 1\n", "        self._index_out += 1\n        if not fields and species_list:\n            self._last = species_list\n") if False else None
m('C18', 'exists', OD, "        if not os.path.exists(self.write_dir):\n            os.makedirs(self.write_dir)\n", "        if not os.path.exists(self.write_dir):\n            os.makedirs(self.write_dir)\n            self._index_out = 0\n")
m('C24', 'vg-cache', PW+'simple_blowout.py', "        b_w = self.laser.get_group_velocity(n_p)\n", "        if not hasattr(self, '_b_w'):\n            self._b_w = self.laser.get_group_velocity(n_p)\n        b_w = self._b_w\n")
m('C24', 'vg-cache-cust', PW+'custom_blowout.py', "        b_w = self.laser.get_group_velocity(n_p)\n", "        if not hasattr(self, '_b_w'):\n            self._b_w = self.laser.get_group_velocity(n_p)\n        b_w = self._b_w\n")
m('C14', 'laser-beam', PW+'qs_cold_fluid_1x3p.py', "        integrand = (dE_z - nv_z + beam_hist) * r_fld", "        if self.laser is not None and not self.beam_wakefields:\n            beam_hist = 0 * beam_hist\n        integrand = (dE_z - nv_z + beam_hist) * r_fld")
m('C14', 'rho-laser', PW+'qs_cold_fluid_1x3p.py', "        self.chi[2:-2, 2:-2] = rho_fl / gamma_fl\n", "        self.chi[2:-2, 2:-2] = rho_fl / gamma_fl if self.laser is not None else 1.\n")
m('C28', 'diag-none', EL+'beamline.py', "                    opmd_diag=opmd_diag,\n", "                    opmd_diag=opmd_diag if element.n_out else False,\n")
m('C28', 'bar', EL+'beamline.py', "        bunch_list = []\n        if type", "        bunch_list = []\n        if isinstance(bunches, list) and len(bunches) == 1:\n            bunches = bunches[0]\n        if type")
m('C28', 'copy-list', EL+'beamline.py', "        bunch_list = []\n        if type", "        bunch_list = []\n        if isinstance(bunches, list) and len(bunches) > 2:\n            bunches = [*bunches[:2], *[b.copy() for b in bunches[2:]]]\n        if type")
m('C22', 'zero-copy', PB, "            w=deepcopy(self.w),\n", "            w=self.w if self.w.ndim == 1 and len(self.w) == 1 else deepcopy(self.w),\n")
m('C22', 'alias-set', PB, "        self.x = x\n        self.y = y\n        self.xi = xi\n        self.px = px", "        if len(x) == len(getattr(self, 'x', [])):\n            self.x[:] = x\n        else:\n            self.x = x\n        self.y = y\n        self.xi = xi\n        self.px = px")
m('C03', 'update-input', TM, "            last_bunch = output_bunch_list[-1].copy()\n", "            last_bunch = output_bunch_list[-1]\n")
m('C09', 'theta-print', TM, "            new_theta_ref = old_bunch.theta_ref + theta_step\n", "            new_theta_ref = old_bunch.theta_ref + theta_step\n            if abs(new_theta_ref) < 1e-3:\n                new_theta_ref = 0.\n")
m('C18', 'initial', TM, "            if opmd_diag is not None:\n                opmd_diag.write_diagnostics(\n                    0., l_step/ct.c, [output_bunch_list[-1]])", "            if opmd_diag is not None:\n                opmd_diag.write_diagnostics(\n                    l_step/ct.c, l_step/ct.c, [output_bunch_list[-1]])")
m('C10', 'w-alias', TM, "                    bunch_mat, bunch.q, gamma_ref, self, l_curr,\n", "                    bunch_mat, np.full(len(bunch.w), np.mean(bunch.q)), gamma_ref, self, l_curr,\n")
m('C10', 'species', TM, "                    bunch.q_species, bunch.m_species)", "                    bunch.q_species, ct.m_e)")
m('C27', 'swap', EL+'field_element.py', "        if not isinstance(bunches, list):\n            bunches = [bunches]\n", "        if not isinstance(bunches, list):\n            bunches = [bunches]\n        bunches.sort(key=lambda b: b.name)\n")
m('C04', 'order', EL+'field_element.py', "        if not isinstance(bunches, list):\n            bunches = [bunches]\n", "        if not isinstance(bunches, list):\n            bunches = [bunches]\n        bunches = sorted(bunches, key=lambda b: b.name)\n")
m('C16', 'pp-cache', QS+'solver.py', "    pp.initialize()\n", "    pp.initialize()\n    if parabolic_coefficient < 0:\n        pp.q = np.abs(pp.q)\n")
m('C16', 'zero-a2', QS+'solver.py', "    a2[2:-2, 2:-2] = laser_a2\n", "    a2[2:-2, 2:-2] = np.where(laser_a2 > 1e-6, laser_a2, 0.)\n")
m('C16', 'nabla', QS+'solver.py', "    nabla_a2[2:-2, 2:-2] = radial_gradient(laser_a2, dr)\n", "    nabla_a2[2:-2, 2:-2] = radial_gradient(laser_a2, dr) if np.max(laser_a2) > .01 else 0.\n")
m('C26', 'global-cache', QS+'solver.py', "    b_t_beam = np.zeros((n_xi+4, n_r+4))\n", "    global _bt\n    try:\n        b_t_beam = _bt\n        b_t_beam[:-3] = 0.\n        assert b_t_beam.shape == (n_xi+4, n_r+4)\n    except Exception:\n        b_t_beam = _bt = np.zeros((n_xi+4, n_r+4))\n")
m('C21', 'mod', BA, "    q_tot = np.sum(q)", "    q_tot = np.sum(q)\n    z -= 0.") if False else None
