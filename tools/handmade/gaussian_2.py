# target: pybbn/gaussian/inference.py
class GaussianInference(object):
    @property
    def P(self):
        params = {k: (v, 0) for k, v in self.meta.items()}
        params.update({k: (-v, self.E[i][i]) for i, (k, v) in enumerate(zip(self.H, self.M))})
        return params

    def do_inference(self, name, observation):
        observations = [(name, observation)]
        return self.do_inferences(observations)

    def do_inferences(self, observations):
        names = [n for n, _ in observations]
        values = [o for _, o in observations]
        z_index = [self.I[n] for n in names]
        y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
        m_Z = np.array([self.M[i] for i in z_index])
        m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
        z = np.array(values)
        S_YZ = self.E[y_index][:, z_index]
        S_ZZ = np.linalg.inv(self.E[z_index][:, z_index])
        gain = S_YZ.dot(S_ZZ)
        M = m_Y - gain.dot(z - m_Z)
        E = self.E[y_index][:, y_index] - gain.dot(S_YZ.T)
        meta = {**self.meta, **dict(observations)}
        return GaussianInference([self.H[i] for i in y_index], M, E, meta)
