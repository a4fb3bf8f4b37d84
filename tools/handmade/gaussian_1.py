# target: pybbn/gaussian/inference.py
class GaussianInference(object):
    def __repr__(self):
        names = ",".join(self.H)
        means = ",".join(f"{m:.3f}" for m in self.M)
        rows = []
        for r in range(self.E.shape[0]):
            row = ",".join(f"{self.E[r][c]:.3f}" for c in range(self.E.shape[1]))
            rows.append("[" + row + "]")
        cov = "[" + "|".join(rows) + "]"
        meta = ",".join(f"{k}={v:.3f}" for k, v in self.meta.items())
        return f"GaussianInference[H=[{names}], M=[{means}], E={cov}, meta={{{meta}}}]"

    @staticmethod
    def _std(v):
        return 0.01 if v == 0.0 else np.sqrt(v)

    def sample_marginals(self, size=1000):
        samples = {}
        for m in self.marginals:
            draws = np.random.normal(m["mean"], self._std(m["var"]), size=size)
            samples[m["name"]] = pd.Series(draws)
        return samples

    @property
    def marginals(self):
        result = []
        for name, params in self.P.items():
            mean, var = params
            result.append({"name": name, "mean": mean, "var": var})
        return result

    @property
    def P(self):
        params = {}
        for name, value in self.meta.items():
            params[name] = (value, 0)
        for i in range(len(self.H)):
            params[self.H[i]] = (-self.M[i], self.E[i][i])
        return params

    def _partition(self, observations):
        z_index = [self.I[name] for name, _ in observations]
        y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
        return y_index, z_index

    def do_inferences(self, observations):
        y_index, z_index = self._partition(observations)
        z = np.array([value for _, value in observations])
        m_Z = np.array([self.M[i] for i in z_index])
        m_Y = np.array([self.M[i] for i in y_index])
        S_YZ = self.E[y_index][:, z_index]
        S_ZZ = np.linalg.inv(self.E[z_index][:, z_index])
        S_YY = self.E[y_index][:, y_index]
        K = S_YZ.dot(S_ZZ)
        H = [self.H[i] for i in y_index]
        M = m_Y - K.dot(z - m_Z)
        E = S_YY - K.dot(S_YZ.T)
        meta = dict(self.meta)
        for name, value in observations:
            meta[name] = value
        return GaussianInference(H, M, E, meta)
