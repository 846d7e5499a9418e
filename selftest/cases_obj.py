F = 'core/objectives.py'
OLD_LS = """        chi2 = [0 for _ in evaluated_func]
        for index, (dep_var, dep_var_value) in enumerate(zip(self.model.dependent_vars, evaluated_func)):
            dep_data = self.dependent_data.get(dep_var, None)
            if dep_data is not None:
                sigma = self.sigma_data[self.model.sigmas[dep_var]]
                chi2[index] += np.sum(
                    (dep_var_value - dep_data) ** 2 / sigma ** 2
                )
        if flatten_components:
            return np.sum(chi2) / 2
        return [component / 2 for component in chi2]
"""
OLD_LL = """        ans = - np.nansum(
            [np.nansum(np.log(component)) for component in evaluated_func]
        )
        return ans
"""
OLD_VLS = """        result = []

        # zip together the dependent vars and evaluated component
        for y, ans in zip(self.model.dependent_vars, evaluated_func):
            dep_data = self.dependent_data.get(y, None)
            if dep_data is not None:
                result.append(((self.dependent_data[y] - ans) / self.sigma_data[self.model.sigmas[y]]) ** 2)
                if flatten_components: # Flattens *within* a component
                    result[-1] = result[-1].flatten()
        return np.sqrt(sum(result))
"""
CASES = [
    ('comment', 'C02', 'ok', [(F, OLD_LS, OLD_LS + "\n# comment\n")]),
    ('noop statement', 'C02', 'ok', [(F, OLD_LS, "        None\n        _unused = 0\n" + OLD_LS)]),
    ('ls: append style', 'C02', 'ok', [(F, OLD_LS, """        chi2 = []
        for dep_var, dep_var_value in zip(self.model.dependent_vars, evaluated_func):
            dep_data = self.dependent_data.get(dep_var)
            if dep_data is None:
                chi2.append(0)
                continue
            sigma = self.sigma_data[self.model.sigmas[dep_var]]
            residual = (dep_data - dep_var_value) / sigma
            chi2.append(np.sum(residual ** 2))
        if not flatten_components:
            return [0.5 * component for component in chi2]
        return 0.5 * np.sum(chi2)
""")]),
    ('ls: helper method', 'C02', 'ok', [(F, OLD_LS, """        chi2 = [self._component(v, f) for v, f in zip(self.model.dependent_vars, evaluated_func)]
        if flatten_components:
            return np.sum(chi2) / 2
        return [component / 2 for component in chi2]

    def _component(self, dep_var, value):
        data = self.dependent_data.get(dep_var, None)
        if data is None:
            return 0
        return np.sum(((value - data) / self.sigma_data[self.model.sigmas[dep_var]]) ** 2)
""")]),
    ('ls: while loop', 'C02', 'ok', [(F, OLD_LS, """        chi2 = [0 for _ in evaluated_func]
        index = 0
        while index < len(evaluated_func):
            dep_var = self.model.dependent_vars[index]
            dep_var_value = evaluated_func[index]
            dep_data = self.dependent_data.get(dep_var, None)
            if dep_data is not None:
                sigma = self.sigma_data[self.model.sigmas[dep_var]]
                chi2[index] += ((dep_var_value - dep_data) ** 2 / sigma ** 2).sum()
            index += 1
        if flatten_components:
            return sum(chi2) / 2
        return [component / 2 for component in chi2]
""")]),
    ('ls: sum directly, early return', 'C02', 'ok', [(F, OLD_LS, """        deps = self.model.dependent_vars
        if flatten_components:
            total = 0.0
            for i, v in enumerate(deps):
                if self.dependent_data[v] is not None:
                    total = total + np.sum((evaluated_func[i] - self.dependent_data[v]) ** 2 / self.sigma_data[self.model.sigmas[v]] ** 2)
            return total / 2
        return [(np.sum((f - self.dependent_data[v]) ** 2 / self.sigma_data[self.model.sigmas[v]] ** 2) / 2 if self.dependent_data[v] is not None else 0)
                for v, f in zip(deps, evaluated_func)]
""")]),
    ('ls: range(len)', 'C02', 'ok', [(F, OLD_LS, """        chi2 = [0] * len(evaluated_func)
        dependent = list(self.model.dependent_vars)
        for i in range(len(dependent)):
            dep_data = self.dependent_data.get(dependent[i], None)
            if not (dep_data is None):
                weights = 1 / self.sigma_data[self.model.sigmas[dependent[i]]] ** 2
                chi2[i] = chi2[i] + np.sum(weights * np.square(evaluated_func[i] - dep_data))
        return np.sum(chi2) / 2 if flatten_components else [c / 2 for c in chi2]
""")]),
    ('ls: generator + dict', 'C02', 'ok', [(F, OLD_LS, """        chi2 = {v: 0 for v in self.model.dependent_vars}
        for v, f in zip(self.model.dependent_vars, evaluated_func):
            dep_data = self.dependent_data.get(v, None)
            if dep_data is not None:
                chi2[v] = np.sum((f - dep_data) ** 2 / self.sigma_data[self.model.sigmas[v]] ** 2)
        if flatten_components:
            return sum(chi2.values()) / 2
        return [component / 2 for component in chi2.values()]
""")]),
    ('ll: loop', 'C02', 'ok', [(F, OLD_LL, """        total = 0
        for component in evaluated_func:
            total -= np.nansum(np.log(component))
        return total
""")]),
    ('ll: sum', 'C02', 'ok', [(F, OLD_LL, """        return -sum(np.nansum(np.log(c)) for c in evaluated_func)
""")]),
    ('vls: comprehension', 'C02', 'ok', [(F, OLD_VLS, """        residuals = [((self.dependent_data[y] - ans) / self.sigma_data[self.model.sigmas[y]]) ** 2
                     for y, ans in zip(self.model.dependent_vars, evaluated_func)
                     if self.dependent_data.get(y, None) is not None]
        if flatten_components:
            residuals = [r.flatten() for r in residuals]
        return np.sqrt(sum(residuals))
""")]),
    ('ls: missing half', 'C02', 'bad', [(F, "return np.sum(chi2) / 2", "return np.sum(chi2)")]),
    ('ls: sigma not squared', 'C02', 'bad', [(F, "(dep_var_value - dep_data) ** 2 / sigma ** 2", "(dep_var_value - dep_data) ** 2 / sigma")]),
    ('ls: = for +=, ok since 0', 'C02', 'ok', [(F, "chi2[index] += np.sum(", "chi2[index] = np.sum(")]),
    ('ls: nansum', 'C02', 'bad', [(F, "chi2[index] += np.sum(", "chi2[index] += np.nansum(")]),
    ('ll: sum for nansum', 'C02', 'bad', [(F, "[np.nansum(np.log(component)) for", "[np.sum(np.log(component)) for")]),
    ('ll: abs', 'C02', 'bad', [(F, "np.nansum(np.log(component))", "np.nansum(np.log(np.abs(component)))")]),
    ('vls: break on None', 'C02', 'bad', [(F, """                if flatten_components: # Flattens *within* a component
                    result[-1] = result[-1].flatten()
""", """                if flatten_components: # Flattens *within* a component
                    result[-1] = result[-1].flatten()
            else:
                break
""")]),
    ('mm: last', 'C02', 'bad', [(F, "        return evaluated_func[0]", "        return evaluated_func[-1]")]),
    ('mm: >2', 'C02', 'bad', [(F, "        if len(model.dependent_vars) > 1:", "        if len(model.dependent_vars) > 2:")]),
]
