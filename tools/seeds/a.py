TOY = r'''
import sys, os, io, contextlib
import numpy as np
from dynaphopy.atoms import Structure
from dynaphopy.dynamics import Dynamics
import dynaphopy

def structure():
    return Structure(cell=np.diag([4., 5., 6.]), positions=np.array([[0., 0, 0], [2, 2.5, 3]]),
                     atomic_elements=['Na', 'Cl'], masses=[1., 4.], primitive_matrix=np.eye(3))

def dynamics(steps=60, seed=0, memmap=False, dt=0.01):
    rng = np.random.RandomState(seed)
    s = structure()
    pos = s.get_positions(supercell=[2, 1, 1])
    disp = np.cumsum(rng.normal(size=(steps,) + pos.shape), axis=0) * .01
    return Dynamics(structure=s, trajectory=(pos[None] + disp).astype(complex), time=np.arange(steps) * dt,
                    supercell=np.diag([8., 5., 6.]), memmap=memmap)
'''
SEEDS = {
 'c17-average-oblique': dict(property='C17',
  edits=[('dynaphopy/dynamics.py', 'difference_matrix = np.around(np.dot(np.linalg.inv(cell.T),', 'difference_matrix = np.around(np.dot(np.linalg.inv(cell),')],
  needs='an oblique cell and an atom whose average position lies near the border of the cell',
  what='average positions outside the cell, or moved by a wrong lattice vector',
  demo=TOY + r'''
cell = np.array([[4., 0, 0], [-3, 4, 0], [0, 0, 5]])
ok = True
for f in ([.05, .95, .5], [.9, .1, .5], [.02, .6, .9], [.95, .95, .1]):
    s = Structure(cell=cell, positions=np.dot([f], cell), atomic_elements=['Na'], masses=[1.], primitive_matrix=np.eye(3))
    pos = s.get_positions(supercell=[1, 1, 1])
    d = Dynamics(structure=s, trajectory=np.array([pos, pos, pos]).astype(complex), time=np.arange(3) * .1, supercell=cell)
    x = np.dot(d.average_positions().real, np.linalg.inv(cell))
    ok &= bool(np.all(x > -1e-6) and np.all(x < 1 + 1e-6) and np.allclose((x - f) - np.round(x - f), 0, atol=1e-6))
sys.exit(0 if ok else 1)
'''),
 'c03-mass-velocity-kept': dict(property='C03',
  edits=[('dynaphopy/dynamics.py', '''        self._velocity_mass_average = None
        self._relative_trajectory = None
        self._mean''', '''        self._relative_trajectory = None
        self._mean''')],
  needs='mass weighted velocities requested before and after a crop of the trajectory object',
  what='mass weighted velocities of steps that are no longer held',
  demo=TOY + r'''
d = dynamics()
d.get_velocity_mass_average()
d.crop_trajectory(10)
sys.exit(0 if len(d.get_velocity_mass_average()) == 10 else 1)
'''),
}
