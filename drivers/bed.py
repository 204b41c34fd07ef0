from fluids import filters as F
from fluids import packed_bed as B
from fluids import packed_tower as W

FN = {"Erdim, Akgiray & Demir": 'Erdim_Akgiray_Demir', "Fahien & Schriver": 'Fahien_Schriver', "Jones & Krier": 'Jones_Krier', "Kuo & Nydegger": 'Kuo_Nydegger',
      "Harrison, Brunner & Hecker": 'Harrison_Brunner_Hecker', "Montillet, Akkari & Comiti": 'Montillet_Akkari_Comiti', "Guo, Sun, Zhang, Ding & Liu": 'Guo_Sun'}


def packing(rng):
    return rng.choice([dict(voidage=.68, specific_area=260., C1=32., C2=7., C3=1.), dict(voidage=rng.uniform(.55, .95), specific_area=rng.uniform(80, 350), C1=rng.uniform(1, 40), C2=rng.uniform(1, 8), C3=rng.uniform(.4, 3))])


def run(job, rng, T, tier):
    k, law, tube = job['kind'], job['law'], job['tube']
    lo, hi = float(job['lo']), float(job['hi'])
    T.trace(job['cell'])
    n = 1 if tier == 'quick' else 8
    if k == 'bed':
        for _ in range(5*n):
            d, rho, mu = rng.log(1e-5, .1), rng.log(.1, 3000), rng.log(1e-6, 1)
            kw = dict(dp=d, voidage=rng.choice([.4, .4*(1 - 1e-9), rng.uniform(.3, .5), rng.uniform(.15, .95)]), rho=rho, mu=mu, vs=rng.log(lo, hi)*mu/(rho*d))
            if rng.random() < .7: kw['L'] = rng.log(.01, 50)
            if tube != 'none': kw['Dt'] = d*{'narrow': rng.uniform(2, 4), 'wide': rng.uniform(4, 45), 'fifty': rng.choice([50*(1 - 1e-9), 50*(1 + 1e-9), rng.log(50, 500)])}[tube]
            if law:
                q = {x: v for x, v in kw.items() if x != 'Dt' or law in ("Harrison, Brunner & Hecker", "Montillet, Akkari & Comiti", "Guo, Sun, Zhang, Ding & Liu")}
                T.call('law', getattr(B, FN.get(law, law)), q, law=law)
                kw['Method'] = law
            else:
                m = {x: v for x, v in kw.items()}
                if rng.random() < .5: m['check_ranges'] = rng.random() < .5
                T.call('list', B.dP_packed_bed_methods, m)
            if rng.random() < .5: kw['sphericity'] = rng.uniform(.2, 1)
            T.call('pick', B.dP_packed_bed, kw)
    elif k == 'refuse':
        for s in ('ergun', 'Fake', 'Jones_Krier', 'Erdim', ''):
            T.call('refused', B.dP_packed_bed, dict(dp=1e-3, voidage=.4, vs=1e-3, rho=1e3, mu=1e-3, Method=s))
    elif k == 'voidage':
        for _ in range(30*n):
            d = rng.log(1e-4, .1)
            kw = dict(Dt=d*rng.log(1.1, 500))
            if law == 'experimental': T.call('experimental', W.voidage_experimental, dict(m=rng.log(.1, 100), rho=rng.log(900, 9000), D=rng.log(.1, 10), H=rng.log(.05, 5)))
            elif law == 'area': T.call('area', W.specific_area_mesh, dict(voidage=rng.uniform(.5, .999), d=rng.log(1e-5, 1e-2)))
            elif law == 'spherical': T.call('void', B.voidage_Benyahia_Oneil_spherical, dict(kw, Dp=d), law=law, d=d)
            else: T.call('void', B.voidage_Benyahia_Oneil if law == 'general' else B.voidage_Benyahia_Oneil_cylindrical, dict(kw, Dpe=d, sphericity=rng.uniform(.1, 1)), law=law, d=d)
    elif k == 'demister':
        for _ in range(40*n):
            if law in ('dry', 'lit'):
                L = rng.uniform(.05, 1)
                kw = dict(S=rng.choice([rng.uniform(1, 14), rng.uniform(18, 30), rng.uniform(36, 50), rng.uniform(58, 300)])/L, voidage=rng.uniform(.8, .999), vs=rng.log(.1, 20), rho=rng.log(.1, 100), mu=rng.log(5e-6, 1e-4), L=L)
                if rng.random() < .2: kw['S'] *= kw.pop('L')
                T.call('demdry', W.dP_demister_dry_Setekleiv_Svendsen if law == 'dry' else W.dP_demister_dry_Setekleiv_Svendsen_lit, kw, law=law)
            elif law == 'wet':
                kw = dict(vs=rng.log(.1, 20), voidage=rng.uniform(.8, .999), d_wire=rng.log(1e-5, 1e-3))
                if rng.random() < .7: kw['L'] = rng.log(.01, 10)
                T.call('demwet', W.dP_demister_wet_ElDessouky, kw)
                c = rng.uniform(1.1, 5)
                T.call('demratio', lambda v, e, d, c: [W.dP_demister_wet_ElDessouky(v, e, d), W.dP_demister_wet_ElDessouky(v*c, e, d)], dict(v=kw['vs'], e=kw['voidage'], d=kw['d_wire'], c=c), factor=c**.81317)
            else:
                T.call('demsep', W.separation_demister_ElDessouky, dict(vs=rng.log(.1, 20), voidage=rng.uniform(.8, .999), d_wire=rng.log(1e-5, 1e-3), d_drop=rng.log(1e-7, 2e-3)))
    elif k == 'tower':
        for _ in range(60*n):
            p = packing(rng)
            g = dict(rhog=rng.log(.5, 30), mug=rng.log(8e-6, 8e-5), **p)
            H = {'H': rng.log(.1, 20)} if rng.random() < .7 else {}
            if law == 'dry': T.call('dry', W.Stichlmair_dry, dict(g, Vg=rng.log(.01, 10), **H))
            elif law == 'robbins':
                kw = dict(L=rng.log(.5, 40), G=rng.log(.1, 5), rhol=rng.uniform(500, 1500), rhog=rng.log(.2, 20), mul=rng.log(1e-4, .1), **H)
                if rng.random() < .7: kw['Fpd'] = rng.uniform(5, 200)
                T.call('robbins', W.Robbins, kw)
            else:
                kw = dict(g, Vl=rng.choice([5e-3, rng.log(1e-3, 2e-2)]), rhol=rng.uniform(500, 1500), **H)
                if law == 'flood': T.call('flood', W.Stichlmair_flood, kw)
                else:
                    f = W.Stichlmair_flood(**kw)
                    T.call('wet', W.Stichlmair_wet, dict(kw, Vg=f*rng.uniform(.05, .9)))
    elif k == 'mesh':
        for _ in range(30*n):
            kw = dict(alpha=rng.uniform(.05, .95))
            if law: kw['subtype'] = law if law != 'bad' else rng.choice(['round', 'Knotted net', '', 'net'])
            if rng.random() < .8: kw['angle'] = rng.choice([0, 45, 45*(1 - 1e-9), 45*(1 + 1e-9), 85, 90, 50, 80, rng.uniform(0, 45), rng.uniform(45, 90)])
            T.call('refused' if law == 'bad' else 'mesh', F.round_edge_open_mesh, kw)
    elif k == 'screen':
        for _ in range(80*n):
            al = rng.uniform(.05, .95)
            if law == 'round':
                kw = dict(alpha=al, Re=rng.choice([rng.log(1, 2000), rng.choice([20, 30, 40, 60, 80, 100, 200, 400])]))
                if rng.random() < .8: kw['angle'] = rng.choice([0, 45, 45*(1 - 1e-9), 45*(1 + 1e-9), 85, 90, 60, 70, rng.uniform(0, 45), rng.uniform(45, 90)])
                T.call('screen', F.round_edge_screen, kw)
            elif law == 'square': T.call('square', F.square_edge_screen, dict(alpha=rng.choice([rng.random(), rng.log(.001, 1), rng.randint(0, 20)/20., rng.uniform(.9, 1)])))
            else:
                kw = dict(alpha=al if law == 'square grill' else rng.choice([rng.uniform(.3, .7), .3, .4, .5, .6, .7]))
                Dh = rng.log(1e-4, .1)
                q = dict(l=Dh*rng.choice([rng.log(.1, 500), 50*(1 - 1e-9), 50*(1 + 1e-9)]), Dh=Dh, fd=rng.uniform(.005, .1))
                for x in list(q):
                    if rng.random() < .12: del q[x]
                T.call(law, F.square_edge_grill if law == 'square grill' else F.round_edge_grill, dict(kw, **q))
