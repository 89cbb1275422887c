"""behaviour-preserving edits of ccp_regularize.py"""
CC = "experiments/utils/ccp_regularize.py"
S1 = "        d_inv = 1 / d.reshape(-1, 1)\n        Lamda = np.linalg.cholesky(np.linalg.inv(np.eye(self.rank) + F.T @ (d_inv * F)))\n"
B1 = "        e_inv = 1 / self.ek.reshape(-1, 1)\n        Lamda = np.linalg.cholesky(\n            np.linalg.inv(np.eye(self.rank) - self.Gk.T @ (e_inv * self.Gk))\n        )\n        F = e_inv * (self.Gk @ Lamda)\n        d = e_inv.flatten()\n\n        return F, d\n"
OBJ = """            -slogdet(matrix)[1]
            + np.trace(self.Sigma @ np.diag(self.ek))
            - np.linalg.norm(np.linalg.cholesky(self.Sigma).T @ self.Gk, ord="fro") ** 2
"""
MAT = """        matrix = np.vstack(
            [np.hstack([np.diag(self.ek), self.Gk]), np.hstack([self.Gk.T, I])]
        )
"""
LOOP = """    for j in range(maxiters):
        common_factor = _common_factor(ej, Gj)
        G_grad = _grad_G(common_factor)
        e_grad = _grad_e(ej, Gj, common_factor)

        # TODO: hardcoded
        alpha = 1
        ej = (ej - (e_grad + np.diag(Sigma))) * alpha
        Gj = (Gj - (G_grad - 2 * Sigma_at_Gk)) * alpha
"""
EDITS = {
 "ccp_newaxis": [(CC, S1, "        d_inv = (1 / d)[:, None]\n        inner = np.eye(self.rank) + F.T @ (d_inv * F)\n        Lamda = np.linalg.cholesky(np.linalg.inv(inner))\n")],
 "ccp_diagflat": [(CC, "F.T @ (d_inv * F)))\n", "F.T @ np.diag(1 / d) @ F))\n")],
 "ccp_ravel": [(CC, "        self.ek = d_inv.flatten()\n", "        self.ek = d_inv.ravel()\n"), (CC, "        d = e_inv.flatten()\n", "        d = e_inv[:, 0]\n")],
 "ccp_ek": [(CC, "        self.ek = d_inv.flatten()\n", "        self.ek = 1 / d\n")],
 "ccp_divide": [(CC, "        self.Gk = d_inv * (F @ Lamda)  # k=ccp iteration\n", "        self.Gk = (F @ Lamda) / d[:, np.newaxis]\n")],
 "ccp_order": [(CC, "        self.Gk = d_inv * (F @ Lamda)  # k=ccp iteration\n", "        self.Gk = (d_inv * F) @ Lamda\n")],
 "ccp_build_helper": [(CC, B1, "        return _pair(self.ek, self.Gk)\n"), (CC, "def _common_factor(e, G):", "def _pair(e, G):\n    e_inv = 1 / e.reshape(-1, 1)\n    Lamda = np.linalg.cholesky(np.linalg.inv(np.eye(G.shape[1]) - G.T @ (e_inv * G)))\n    return e_inv * (G @ Lamda), e_inv.flatten()\n\n\ndef _common_factor(e, G):")],
 "ccp_obj_weights": [(CC, "            + np.trace(self.Sigma @ np.diag(self.ek))\n", "            + np.sum(np.diag(self.Sigma) * self.ek)\n")],
 "ccp_obj_dot": [(CC, "            + np.trace(self.Sigma @ np.diag(self.ek))\n", "            + np.diag(self.Sigma) @ self.ek\n")],
 "ccp_obj_trace": [(CC, "            - np.linalg.norm(np.linalg.cholesky(self.Sigma).T @ self.Gk, ord=\"fro\") ** 2\n", "            - np.trace(self.Gk.T @ self.Sigma @ self.Gk)\n")],
 "ccp_obj_steps": [(CC, "        obj = (\n" + OBJ + "        )\n\n        return obj\n", "        logdet = slogdet(matrix)[1]\n        linear = np.trace(self.Sigma @ np.diag(self.ek))\n        root = np.linalg.cholesky(self.Sigma)\n        concave = np.sum((root.T @ self.Gk) ** 2)\n        return linear - logdet - concave\n")],
 "ccp_obj_block": [(CC, MAT, "        matrix = np.block([[np.diag(self.ek), self.Gk], [self.Gk.T, I]])\n")],
 "ccp_obj_sign": [(CC, "            -slogdet(matrix)[1]\n            + np.trace", "            -np.linalg.slogdet(matrix).logabsdet\n            + np.trace")],
 "ccp_bmat": [(CC, "        matrix = cp.vstack(\n            [cp.hstack([cp.diag(self.e_var), self.G_var]), cp.hstack([self.G_var.T, I])]\n        )\n", "        matrix = cp.bmat([[cp.diag(self.e_var), self.G_var], [self.G_var.T, np.eye(self.rank)]])\n")],
 "ccp_names": [(CC, "            - 2 * cp.trace(self.Sigma @ self.Gk_par @ self.G_var.T)\n", "            - cp.trace(2 * self.Sigma @ self.Gk_par @ self.G_var.T)\n"), (CC, "        self.prob = cp.Problem(cp.Minimize(obj))\n", "        objective = cp.Minimize(obj)\n        self.prob = cp.Problem(objective)\n")],
 "ccp_sumprob": [(CC, "            + cp.trace(cp.multiply(self.Sigma, self.e_var.T))\n", "            + cp.sum(cp.multiply(np.diag(self.Sigma), self.e_var.T))\n")],
 "ccp_sumprob2": [(CC, "            - 2 * cp.trace(self.Sigma @ self.Gk_par @ self.G_var.T)\n", "            - 2 * cp.sum(cp.multiply(self.Sigma @ self.Gk_par, self.G_var))\n")],
 "ccp_maximize": [(CC, "        obj = (\n            -cp.log_det(matrix)\n            + cp.trace(cp.multiply(self.Sigma, self.e_var.T))\n            - 2 * cp", "        obj = (\n            cp.trace(cp.multiply(self.Sigma, self.e_var.T))\n            - cp.log_det(matrix)\n            - 2 * cp")],
 "ccp_nocopy": [(CC, "        self.Gk_par.value = self.Gk.copy()\n", "        self.Gk_par.value = self.Gk\n")],
 "ccp_noprint": [(CC, "        print(self.objective())\n        self.ek = self.e_var", "        self.ek = self.e_var"), (CC, "        # print(self.Gk)\n        print(self.objective())\n", "")],
 "ccp_after": [(CC, "        print(self.objective())\n        self.ek = self.e_var.value.flatten()\n        self.Gk = self.G_var.value\n", "        e, G = self.e_var.value, self.G_var.value\n        self.Gk = np.asarray(G)\n        self.ek = np.ravel(e)\n        print(self.objective())\n")],
 "ccp_common_solve": [(CC, "    return e_inv * (G @ np.linalg.inv(I - G.T @ (e_inv * G)))\n", "    M = I - G.T @ (e_inv * G)\n    return e_inv * np.linalg.solve(M.T, G.T).T\n")],
 "ccp_common_where": [(CC, "    return e_inv * (G @ np.linalg.inv(I - G.T @ (e_inv * G)))\n", "    scaled = e_inv * G\n    return scaled @ np.linalg.inv(I - G.T @ scaled)\n")],
 "ccp_grad_sum": [(CC, "    return -(e_inv.flatten() + np.diag(common_factor @ (G.T * e_inv.T)))\n", "    return -e_inv.flatten() - np.sum(common_factor * (G * e_inv), axis=1)\n")],
 "ccp_grad_einsum": [(CC, "    return -(e_inv.flatten() + np.diag(common_factor @ (G.T * e_inv.T)))\n", "    return -(1 / e + np.einsum(\"ij,ij->i\", common_factor, G / e[:, None]))\n")],
 "ccp_loop_inplace": [(CC, LOOP, LOOP.replace("        ej = (ej - (e_grad + np.diag(Sigma))) * alpha\n        Gj = (Gj - (G_grad - 2 * Sigma_at_Gk)) * alpha\n", "        ej -= alpha * (e_grad + np.diag(Sigma))\n        Gj -= alpha * (G_grad - 2 * Sigma_at_Gk)\n"))],
 "ccp_loop_tuple": [(CC, LOOP, """    variances = np.diag(Sigma)
    for _ in range(maxiters):
        common = _common_factor(ej, Gj)
        ej, Gj = ej - (_grad_e(ej, Gj, common) + variances), Gj - (_grad_G(common) - 2 * Sigma_at_Gk)
""")],
 "ccp_loop_step": [(CC, LOOP, "    for _ in range(maxiters):\n        ej, Gj = _step(ej, Gj, Sigma, Sigma_at_Gk)\n"), (CC, "def _solve_proximal_gradient(", "def _step(e, G, Sigma, Sigma_at_Gk):\n    common_factor = _common_factor(e, G)\n    G_new = G - (_grad_G(common_factor) - 2 * Sigma_at_Gk)\n    e_new = e - (_grad_e(e, G, common_factor) + np.diag(Sigma))\n    return e_new, G_new\n\n\ndef _solve_proximal_gradient(")],
 "ccp_loop_nocopy": [(CC, "    ej = e_init.copy()\n    Gj = G_init.copy()\n", "    ej, Gj = e_init, G_init\n")],
 "ccp_loop_while": [(CC, LOOP, LOOP.replace("    for j in range(maxiters):\n", "    j = 0\n    while j < maxiters:\n        j += 1\n"))],
 "ccp_base": [(CC, "class _State2:\n", "class _State2(_State):\n")],
 "ccp_kw": [(CC, "        self.ek, self.Gk = _solve_proximal_gradient(\n            self.ek, self.Gk, self.Gk, self.Sigma\n        )\n", "        e, G = _solve_proximal_gradient(\n            e_init=self.ek, G_init=self.Gk, Gk=self.Gk, Sigma=self.Sigma, maxiters=100\n        )\n        self.ek = e\n        self.Gk = G\n")],
}
