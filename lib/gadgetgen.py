"""Writers for synthetic Gadget I / II / HDF5 snapshots and HDF5 FoF/SUBFIND catalogues."""
import os, struct
import numpy as np


def write_binary(fn, parts, nall, massarr, fmt=1, dt='f8', swap=False, filenum=1, box=10.0,
                 time=0.5, z=1.0, idt=np.uint32):
    """parts: dict type -> dict(pos, vel, ids, mass) for this subfile. Types with massarr != 0
    carry no entry in the MASS block."""
    e = '>' if swap else '<'
    npart = [len(parts[t]['ids']) if t in parts else 0 for t in range(6)]
    with open(fn, 'wb') as f:
        def blk(name, b):
            if fmt == 2:
                f.write(struct.pack(e + 'I4sII', 8, name.encode(), len(b) + 8, 8))
            f.write(struct.pack(e + 'I', len(b)))
            f.write(b)
            f.write(struct.pack(e + 'I', len(b)))
        h = struct.pack(e + '6i6ddd2i6I2i4d', *npart, *massarr, time, z, 0, 0, *nall, 0, filenum, box, .3, .7, .7)
        blk('HEAD', h + b'\0' * (256 - len(h)))
        types = [t for t in range(6) if npart[t]]
        cat = lambda k: np.concatenate([np.asarray(parts[t][k]) for t in types]) if types else np.zeros((0, 3))
        fdt = np.dtype(e + dt)
        blk('POS ', cat('pos').astype(fdt).tobytes())
        blk('VEL ', cat('vel').astype(fdt).tobytes())
        blk('ID  ', cat('ids').astype(np.dtype(idt).newbyteorder(e)).tobytes())
        mtypes = [t for t in types if massarr[t] == 0]
        if mtypes:
            blk('MASS', np.concatenate([np.asarray(parts[t]['mass']) for t in mtypes]).astype(fdt).tobytes())


def write_hdf5(fn, parts, nall, massarr, dt='f8', filenum=1, box=10.0, time=0.5, z=1.0, idt=np.uint32):
    import h5py
    npart = [len(parts[t]['ids']) if t in parts else 0 for t in range(6)]
    with h5py.File(fn, 'w') as f:
        a = f.create_group('Header').attrs
        a['Time'] = time; a['Redshift'] = z; a['BoxSize'] = box; a['NumFilesPerSnapshot'] = filenum
        a['Omega0'] = .3; a['OmegaLambda'] = .7; a['HubbleParam'] = .7
        a['MassTable'] = np.array(massarr, 'f8'); a['NumPart_ThisFile'] = np.array(npart, 'i4')
        a['NumPart_Total'] = np.array(nall, 'u4'); a['Flag_Cooling'] = 0
        for t in range(6):
            if not npart[t]:
                continue
            g = f.create_group('PartType%d' % t)
            g['Coordinates'] = np.asarray(parts[t]['pos']).astype(dt)
            g['Velocities'] = np.asarray(parts[t]['vel']).astype(dt)
            g['ParticleIDs'] = np.asarray(parts[t]['ids']).astype(idt)
            if massarr[t] == 0:
                g['Masses'] = np.asarray(parts[t]['mass']).astype(dt)


def write_snapshot(base, files, massarr, kind='hdf5', **kw):
    """files: list of 'parts' dicts (one per subfile); writes base(.i)(.hdf5)."""
    nall = [sum(len(p[t]['ids']) if t in p else 0 for p in files) for t in range(6)]
    for i, p in enumerate(files):
        fn = base + ('.%d' % i if len(files) > 1 else '')
        if kind == 'hdf5':
            write_hdf5(fn + '.hdf5', p, nall, massarr, filenum=len(files), **kw)
        else:
            write_binary(fn, p, nall, massarr, filenum=len(files), **kw)
    return base


def write_fof(dirname, files, snap='099'):
    """files: list of dicts with keys group_len (n,6), nsubs (n,), rvir, r200 (n,), sh_len (m,6);
    a dict without group_len / sh_len writes a file without the corresponding HDF5 groups."""
    import h5py
    os.makedirs(dirname, exist_ok=True)
    for i, d in enumerate(files):
        name = 'fof_subhalo_tab_%s%s.hdf5' % (snap, '.%d' % i if len(files) > 1 else '')
        with h5py.File(os.path.join(dirname, name), 'w') as g:
            if d.get('group_len') is not None:
                g['Group/GroupLenType'] = np.asarray(d['group_len'], 'i4').reshape(-1, 6)
                g['Group/GroupNsubs'] = np.asarray(d['nsubs'], 'i4')
                g['Group/Group_R_TopHat200'] = np.asarray(d['rvir'], 'f4')
                g['Group/Group_R_Mean200'] = np.asarray(d['r200'], 'f4')
            if d.get('sh_len') is not None:
                g['Subhalo/SubhaloLenType'] = np.asarray(d['sh_len'], 'i4').reshape(-1, 6)
