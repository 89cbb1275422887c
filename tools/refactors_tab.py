"""behaviour-preserving edits of the performance tables"""
PB = "experiments/utils/portfolio_backtests.py"
FIG = '                    metric.mean_return * 100,\n                    metric.risk * 100,\n                    metric.sharpe,\n                    metric.drawdown * 100,\n                )\n            )\n'
LOOP = '    for name, metric in metrics.items():\n        if name != "PRESCIENT":\n            print(\n                "   {} & {:.1f}\\\\% & {:.1f}\\\\% & {:.1f} & {:.0f}\\\\% \\\\\\\\".format(\n                    name,\n' + FIG
LAST = ('        metric = metrics["PRESCIENT"]\n        print(\n            "   {} & {:.1f}\\\\% & {:.1f}\\\\% & {:.1f} & {:.0f}\\\\% \\\\\\\\".format(\n                "PRESCIENT",\n'
        + '\n'.join(x[4:] for x in FIG.split("\n")))
CALL = '        if sigma_tar:\n            metrics[name] = trader.get_metrics(\n                diluted_with_cash=True, sigma_des=sigma_tar, rf=rf, excess=excess\n            )\n        else:  # TODO: for now this means already trades cash\n            metrics[name] = trader.get_metrics(\n                diluted_with_cash=False, rf=rf, excess=excess\n            )\n'
DEF = "def _create_table_helper("
ROW_F = 'def _table_row(name, metric):\n    print(\n        f"   {name} & {metric.mean_return * 100:.1f}\\\\% & {metric.risk * 100:.1f}\\\\% & {metric.sharpe:.1f} & {100 * metric.drawdown:.0f}\\\\% \\\\\\\\"\n    )\n\n\n'
EDITS = {
 "tab_row": [(PB, LOOP, '    for name, metric in metrics.items():\n        if name != "PRESCIENT":\n            _table_row(name, metric)\n'), (PB, LAST, '        _table_row("PRESCIENT", metrics["PRESCIENT"])\n'), (PB, DEF, ROW_F + DEF)],
 "tab_continue": [(PB, LOOP, '    for name in metrics:\n        if name == "PRESCIENT":\n            continue\n        metric = metrics[name]\n        mean, risk, sharpe, drawdown = metric\n        print("   {0} & {1:.1f}\\\\% & {2:.1f}\\\\% & {3:.1f} & {4:.0f}\\\\% \\\\\\\\".format(name, 100 * mean, 100 * risk, sharpe, 100 * drawdown))\n')],
 "tab_template": [(PB, LOOP, '    row = "   {name} & {r:.1f}\\\\% & {m.risk:.1f}\\\\% & {m.sharpe:.1f} & {d:.0f}\\\\% \\\\\\\\"\n    row = "   {} & {:.1f}\\\\% & {:.1f}\\\\% & {:.1f} & {:.0f}\\\\% \\\\\\\\"\n' + LOOP.replace('"   {} & {:.1f}\\\\% & {:.1f}\\\\% & {:.1f} & {:.0f}\\\\% \\\\\\\\".format', 'row.format'))],
 "tab_comp": [(PB, LOOP, '    others = {name: metric for name, metric in metrics.items() if name != "PRESCIENT"}\n    for name, metric in others.items():\n' + '\n'.join(x[4:] if k > 1 else x for k, x in enumerate(LOOP.split("\n")))[len('    for name, metric in metrics.items():\n        if name != "PRESCIENT":\n'):])],
 "tab_join": [(PB, LOOP, '    print("\\n".join("   {} & {:.1f}\\\\% & {:.1f}\\\\% & {:.1f} & {:.0f}\\\\% \\\\\\\\".format(k, m.mean_return * 100, m.risk * 100, m.sharpe, m.drawdown * 100) for k, m in metrics.items() if k != "PRESCIENT"))\n')],
 "tab_kwargs": [(PB, CALL, '        kwargs = dict(rf=rf, excess=excess, diluted_with_cash=bool(sigma_tar))\n        if sigma_tar:\n            kwargs["sigma_des"] = sigma_tar\n        metrics[name] = trader.get_metrics(**kwargs)\n')],
 "tab_inline": [(PB, '    metrics = {}\n    for name, trader in traders.items():\n' + CALL, '    if sigma_tar:\n        metrics = {\n            name: trader.get_metrics(True, sigma_tar, rf, excess)\n            for name, trader in traders.items()\n        }\n    else:\n        metrics = {\n            name: trader.get_metrics(rf=rf, excess=excess)\n            for name, trader in traders.items()\n        }\n')],
 "tab_lines": [(PB, LOOP, '    lines = []\n' + LOOP.replace("            print(\n", "            lines.append(\n") + '    for line in lines:\n        print(line)\n')],
 "tab_pct": [(PB, LOOP, '    for name, metric in metrics.items():\n        if name != "PRESCIENT":\n            print(f"   {name} & {_pct(metric.mean_return)} & {_pct(metric.risk)} & {metric.sharpe:.1f} & {metric.drawdown * 100:.0f}\\\\% \\\\\\\\")\n'),
             (PB, DEF, 'def _pct(x):\n    return "{:.1f}\\\\%".format(100 * x)\n\n\n' + DEF)],
}
for _k, _v in EDITS.items():
    assert len({x[1] for x in _v}) == len(_v), _k
